"""C08: parameter calibration is order-independent, consistent and isolated."""
import itertools
import numpy as np
from .common import *
from .eqs import *
import pynare, pynare.errors
from pynare.parsing import parse_string
from pynare.core.model import Model
from pynare.core.variables import ModelCalibration

PROPERTY = 'C08'
BOUNDS = ('up to 3 (thorough 4) parameters, every dependency graph between them as symbolic flags (cyclic and undefined ones included), every '
          'declaration order, definitions as numbers, text or parsed trees; sequences of up to 2 (thorough 3) assignments, additions, '
          'deletions and joint updates; symbolic numbers throughout')
ASSUMPTIONS = ['the state space of the model is not built (C10)']
NM = ['b', 'ab', 'a', 'c_b']


class Undefined(Exception):
    pass


def expression(i, refs, k):
    """text of a definition that uses refs, and its value"""
    t, f = f'{k}.5', [lambda v: v(None)*0 + k + 0.5]
    for j, r in enumerate(refs):
        form = (i + 2*j + k) % 6
        t += [f' + 2*{r}', f' - {r}^2', f' + (-{r})/4', f' - ({r} - 1)*{r}', f' + exp({r})', f' + (2 - log(1 + {r}^2))'][form]
        f.append([lambda v, r=r: 2*v(r), lambda v, r=r: -v(r)*v(r), lambda v, r=r: -v(r)/4, lambda v, r=r: -(v(r)-1)*v(r), lambda v, r=r: exp(v(r)),
              lambda v, r=r: 2 - log(1 + v(r)*v(r))][form])
    return t, lambda v: sum(g(v) for g in f)


def solve(defs, zero):
    """values of definitions {name: number | (text, fun, refs)}"""
    out, busy = {}, set()
    def val(k):
        if k is None:
            return zero
        if k in out:
            return out[k]
        if k in busy or k not in defs:
            raise Undefined(k)
        busy.add(k)
        d = defs[k]
        out[k] = d[1](val) if isinstance(d, tuple) else d
        return out[k]
    for k in defs:
        val(k)
    return out


def given(defs, form):
    """what is handed to the library"""
    out = {}
    for k, d in defs.items():
        if isinstance(d, tuple):
            out[k] = d[0] if form == 'text' else parse_string(d[0])
        else:
            out[k] = d
    return out


def graph(ctx, names, tag='', k=0, undefined=False):
    defs = {}
    for i, n in enumerate(names):
        refs = [m for m in names if m != n and bool(ctx.flag(f'{tag}{n}_uses_{m}'))]
        if i == 0 and undefined and bool(ctx.flag(f'{tag}undefined')):
            refs.append('nowhere')
        if i == 1 and undefined and bool(ctx.flag(f'{tag}self')):
            refs.append(n)
        if refs:
            defs[n] = (*expression(i, refs, k), refs)
        else:
            defs[n] = ctx.real(f'{tag}v_{n}', pref=Q(i+1, 2))
    return defs


def compare(ctx, got, defs, zero, what):
    want = solve(defs, zero)
    ctx.same(sorted(got), sorted(want), f'{what}: names')
    for k in want:
        if k in got:
            ctx.eq(got[k], want[k], f'{what}: {k}')


def solvable(defs, zero):
    try:
        solve(defs, zero)
        return True
    except Undefined:
        return False


def attempt(ctx, what, fn, before, after, get, zero):
    """run an edit: accepted iff the new definitions can be solved"""
    ok = solvable(after, zero)
    try:
        fn()
        done = True
    except (KeyError, ValueError, SyntaxError, pynare.errors.PynareError, TypeError):
        done = False
    ctx.same(done, ok, f'{what} accepted')
    compare(ctx, get(), after if ok and done else before, zero, what)
    return after if ok and done else before


def h_solve(ctx, n, form, undefined):
    perms = list(itertools.permutations(NM[:n]))
    names = list(ctx.choice('order', perms if n < 3 else perms[::2]))
    defs = graph(ctx, NM[:n], undefined=undefined)
    zero = const(ctx, 0)
    h = given({k: defs[k] for k in names}, form)
    snap = dict(h)
    ok = solvable(defs, zero)
    try:
        C = ModelCalibration(h)
    except (KeyError, ValueError, SyntaxError, pynare.errors.PynareError):
        ctx.same(False, ok, 'definitions accepted')
        return
    ctx.same(True, ok, 'definitions accepted')
    if ok:
        compare(ctx, C, defs, zero, 'values')
        ctx.same(len(C), n, 'length')
        ctx.same(list(h), list(snap), 'names of the mapping it was built from')


def h_edits(ctx, n, steps, form, small=False):
    """edits of a calibration, one at a time"""
    zero = const(ctx, 0)
    defs = graph(ctx, NM[:n])
    if not solvable(defs, zero):
        return ctx.true(True, 'unsolvable start')
    h = given(defs, form)
    twin = given(defs, form)
    C, D = ModelCalibration(h), ModelCalibration(h)
    start = defs
    for s in range(steps):
        ops = ['number', 'expr', 'delete', 'new', 'update']
        op = ctx.choice(f'op{s}', ops)
        names = sorted(defs)
        if op == 'number':
            k = ctx.choice(f'who{s}', names)
            x = ctx.real(f'x{s}')
            after = {**defs, k: x}
            fn = lambda: C.__setitem__(k, x)
        elif op in ('expr', 'new'):
            k = ctx.choice(f'who{s}', names) if op == 'expr' else f'z{s}'
            refs = list(ctx.choice(f'refs{s}', [r for m in (1, 2) for r in itertools.combinations(names + ['nowhere'][:s == 0], m)]))
            e = (*expression(s, refs, s+1), refs)
            after = {**defs, k: e}
            v = e[0] if form == 'text' else parse_string(e[0])
            fn = lambda: C.__setitem__(k, v)
        elif op == 'delete':
            k = ctx.choice(f'who{s}', names)
            after = {a: b for a, b in defs.items() if a != k}
            fn = lambda: C.__delitem__(k)
        else:
            k = ctx.choice(f'who{s}', names)
            x = ctx.real(f'x{s}')
            e = (*expression(s, ['w', k], 2), ['w', k])
            after = {**defs, 'z': e, 'w': x}
            fn = lambda: C.update({'z': e[0], 'w': x})
        defs = attempt(ctx, f'step {s} {op}', fn, defs, after, lambda: dict(C), zero)
    compare(ctx, D, start, zero, 'a calibration built from the same mapping')
    ctx.same(sorted(h), sorted(start), 'names of the mapping')
    for k in start:
        if not isinstance(start[k], tuple):
            ctx.eq(h[k], start[k], f'mapping {k}')
        elif form == 'text':
            ctx.same(h[k], start[k][0], f'mapping {k}')
    compare(ctx, ModelCalibration(h), start, zero, 'a calibration built from the mapping afterwards')


def h_models(ctx, n):
    """models made from the same mapping, copies and defaults"""
    zero = const(ctx, 0)
    defs = {NM[0]: ctx.real('p0', pref=1), NM[1]: (*expression(1, [NM[0]], 1), [NM[0]])}
    h = given(defs, 'text')
    eqs = [f'y = {NM[0]}*y(-1) + {NM[1]}*u']
    how = ctx.choice('second', ['same mapping', 'copy', 'copy of the copy', 'defaults'])
    op = ctx.choice('op', ['number', 'expr', 'new', 'local'])
    which = ctx.choice('changed', [0, 1])
    x = ctx.real('x')
    with no_statespace():
        mk = lambda **k: Model(endog=['y'], stoch=['u'], exprs=eqs, shocks={'u': {'variance': 1.0}}, initial={}, name='h', **k)
        if how == 'defaults':
            bare = lambda: Model(endog=['y'], stoch=['u'], exprs=['y = 0.5*y(-1) + u'])
            Ms = [bare(), bare()]
            now = [{}, {}]
        else:
            A = mk(params=h)
            B = mk(params=h) if how == 'same mapping' else A.copy() if how == 'copy' else A.copy().copy()
            Ms, now = [A, B], [dict(defs), dict(defs)]
        M = Ms[which]
        if op == 'number':
            M.add_params(**{NM[0]: x})
            now[which][NM[0]] = x
        elif op == 'expr':
            M.add_params(new=3.0, **{NM[0]: 'new*2'})
            now[which].update({'new': const(ctx, 3), NM[0]: ('', lambda v: 2*v('new'), ['new'])})
        elif op == 'new':
            M.add_params(z='w + 1', w=x)
            now[which].update({'w': x, 'z': ('', lambda v: v('w') + 1, ['w'])})
        else:
            M.local_params['loc'] = x
        for i in range(2):
            compare(ctx, Ms[i].params, now[i], zero, f'{how}, {op} on model {which}: parameters of model {i}')
            ctx.same('loc' in Ms[i].local_params, op == 'local' and i == which, f'local definition of model {i}')
        if how == 'defaults':
            third = bare()
            ctx.same((len(third.params), len(third.local_params)), (0, 0), 'a model with no parameters')
        else:
            ctx.same(h[NM[1]], defs[NM[1]][0], 'the mapping')
            ctx.eq(h[NM[0]], defs[NM[0]], 'the mapping')
            compare(ctx, mk(params=h).params, defs, zero, 'a model built afterwards')
            # residuals use the parameters of their own model
            for i in range(2):
                w = solve(now[i], zero)
                pt = mat(ctx, [ctx.real(f'pt{i}{j}') for j in range(3)])
                ctx.eq(Ms[i].dynamic_repr(pt)[0], pt[1] - w[NM[0]]*pt[0] - w[NM[1]]*pt[2], f'residual of model {i}')


def cases(tier):
    P = patch_all()
    out = []
    quick = tier == 'quick'
    for n, form, und in ((1, 'text', False), (2, 'text', True), (2, 'tree', True), (3, 'text', False), (3, 'tree', False)) + (() if quick else ((3, 'text', True), (4, 'text', False))):
        out.append(dict(name=f'solve-{n}-{form}-{und}', fn=h_solve, params=dict(n=n, form=form, undefined=und), patch=P, weight=10**n,
                        opts=dict(max_paths=60000, validate_p=0.01)))
    for n, steps, form in ((2, 1, 'text'), (2, 2, 'tree'), (3, 1, 'text')) + (() if quick else ((3, 2, 'text'), (2, 3, 'tree'))):
        out.append(dict(name=f'edits-{n}-{steps}-{form}', fn=h_edits, params=dict(n=n, steps=steps, form=form), patch=P, weight=10**(n*steps),
                        opts=dict(max_paths=60000, validate_p=0.01)))
    out.append(dict(name='models', fn=h_models, params=dict(n=2), patch=P, weight=50))
    return out
