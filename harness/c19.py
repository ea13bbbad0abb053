"""C19: constraints read the variables they name; regime models share a baseline."""
import itertools
import numpy as np
from .common import *
from .content import *
from .eqs import derivative_stubs, exp
from pynare.core.solve.binding import Constraint, OccBinSolution, solve_occbin_one_constraint, solve_occbin_two_constraints
from pynare.core.variables import VarArray, EndogVar, StochVar
from pynare.regimes import RegimeSwitchingModel
from . import c23

PROPERTY = 'C19'
BOUNDS = ('constraints: paths of up to three variables and three periods, every value symbolic, one to three constraints, conditions made of twelve '
          'pairs of forms (comparisons <, <=, >, >=, ==; arithmetic, powers, exp, parameters, the variables themselves) on every choice of variables; '
          'regimes: models of two variables and one shock with calibrated and locally-defined parameters, covariances and boundary values, all '
          'symbolic, one to three alternatives replacing one or two equations; copies of models with and without pending changes, followed by one of the fifteen edits '
          'of C23 on the copy or on the original')
ASSUMPTIONS = ['as C23 for the models', 'symbolic comparisons are exact; on replay, rounded comparisons within 1e-9 of equality are not judged',
               'a condition names at least one variable of the model, and no shocks']

FORMS = [
    # text, (operation, left, right). v, w are variables, p, q parameters
    ('{v} < {p}', lambda v, w, p, q: ('<', v, p)),
    ('{v} >= {p} + {q}', lambda v, w, p, q: ('>=', v, p+q)),
    ('{p} <= {v}', lambda v, w, p, q: ('<=', p, v)),
    ('{v} > {w}', lambda v, w, p, q: ('>', v, w)),
    ('{v} - 0.5*{w} <= -{p}', lambda v, w, p, q: ('<=', v-const_half(v)*w, -p)),
    ('{p}*{v} + {q} > {w}^2', lambda v, w, p, q: ('>', p*v+q, w*w)),
    ('exp({p}) < {v}', lambda v, w, p, q: ('<', exp(p), v)),
    ('{v} == {q}', lambda v, w, p, q: ('==', v, q)),
    ('-{v} < 0.25', lambda v, w, p, q: ('<', -v, 0.25)),
    ('({v} + {w})*{q} >= 1', lambda v, w, p, q: ('>=', (v+w)*q, 1)),
    ('{q} > +{v} - {w}', lambda v, w, p, q: ('>', q, v-w)),
    ('{v}^3 <= {q}*{w}', lambda v, w, p, q: ('<=', v*v*v, q*w)),
]


def const_half(v):
    return Fraction(1, 2) if isinstance(v, (Sym, Fraction)) else 0.5


def compared(form, *args):
    """the truth of the condition; None: too close to tell, when not symbolic and rounded"""
    op, a, b = form(*args)
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        try:
            _, *exact = form(*[Fraction(float(x)) for x in args])
            rounded = any(Fraction(float(x)) != y for x, y in zip((a, b), exact))
        except TypeError:
            rounded = True
        if rounded and abs(a-b) <= 1e-9*(1+abs(a)+abs(b)):
            return None
    return {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b, '==': lambda: a == b}[op]()


def agree(ctx, got, want, label):
    if want is None:
        return
    if isinstance(got, np.ndarray):
        got = got.item()
    if isinstance(want, SymBool) and not isinstance(got, SymBool):
        ctx.true(want if got else ~want, label)
    elif isinstance(got, SymBool):
        ctx.true(got == want, label)
    else:
        ctx.true(bool(got) == bool(want), label)


NAMES = ['x', 'k1', 'k']


def h_constraint(ctx, n, T, ncon, form, given):
    names = NAMES[:n]
    pars = {p: ctx.real('p_'+p, pref=Q(i+1, 2)) for i, p in enumerate(['kk', 'a'])}
    path = ctx.reals('y', (T, n))
    texts, values = [], []
    for c in range(ncon):
        pair, val = [], []
        for h in range(2):
            f = (form + 5*c + 7*h) % len(FORMS)
            v = ctx.choice(f'v{c}{h}', list(range(n))) if c == 0 else (c + h) % n
            w = (v + 1 + h) % n
            p, q = ('kk', 'a') if h else ('a', 'kk')
            pair.append(FORMS[f][0].format(v=names[v], w=names[w], p=p, q=q))
            val.append((f, v, w, p, q))
        texts.append(pair)
        values.append(val)
    endog, exog = names, ['e']
    if given == 'variables':
        endog, exog = VarArray([EndogVar(v) for v in names]), VarArray([StochVar('e')])
    if ncon == 1 and given != 'list':
        con = Constraint(tuple(texts[0]), endog=endog, params=pars, exog=exog)
    else:
        con = Constraint([tuple(t) for t in texts] if ncon % 2 else texts, endog=endog, params=pars, exog=exog)
    ctx.same(len(con), ncon, 'number of constraints')
    got = con(path)
    ctx.same(tuple(np.shape(got)), (T*ncon, 2), 'one row per constraint and period')
    for c in range(ncon):
        for h in range(2):
            f, v, w, p, q = values[c][h]
            for t in range(T):
                want = compared(FORMS[f][1], path[t, v], path[t, w], pars[p], pars[q])
                agree(ctx, got[c*T+t, h], want, f'{texts[c][h]} in period {t}')


def h_malformed(ctx):
    """conditions that do not come in pairs are errors"""
    bad = ctx.choice('bad', [['x < 1'], ['x < 1', 'x > 1', 'x > 2'], [['x < 1', 'x > 1'], ['x < 1']], [['x < 1'], ['x > 1', 'x < 1']], 'x < 1', 3, None])
    try:
        Constraint(bad, endog=['x'], params={}, exog=['e'])
    except (ValueError, TypeError):
        ctx.true(True, 'rejected')
    else:
        ctx.fail(f'{bad} is a constraint')


# ------------------------------------------------------------------ regimes and copies
def base(ctx, rich=True):
    c = c23.base(ctx)
    c.eqs = [('ar', 'x', 'y', 'e'), ('loc', 'y', 'x', 'e')]
    if rich:
        c.shocks = ['e', 'u']
        c.var['u'] = ctx.real('var_u', lo=0, pref=Q(3, 7))
        c.corr['u', 'e'] = ctx.real('corr_ue', pref=Q(2, 7))
        c.terminal, c.historical = {'x': ctx.real('term_x', pref=Q(5, 7))}, {'y': ctx.real('hist_y', pref=Q(6, 7))}
        c.defs['g'] = 'a*b'
        c.local_defs['n'] = 'l*m'
        c.determ = {'d1': ([1], [2.0])}
    return c


NEW = [('mix', 'x', 'y', 'e'), ('st', 'x', 'y', 'e'), ('fw', 'y', 'x', 'e'), ('loc', 'x', 'y', 'e'), ('ar', 'y', 'x', 'u')]


def h_regimes(ctx, form, n_alt):
    c = base(ctx)
    with kept_statespace():
        cls, pt = model_class(ctx), points(ctx)
        M = c.build(cls)
        pending = ctx.choice('pending', ['built', 'read', 'changed'])
        if pending == 'read':
            read(M)
        elif pending == 'changed':
            c23.e_param(ctx, M, c, 0)
        alts, contents = [], []
        for k in range(n_alt):
            at = ctx.choice(f'replaced{k}', [(0,), (1,), (0, 1), (1, 0)])
            d, a = {}, c.copy()
            for i in at:
                eq = ctx.choice(f'equation{k}', NEW[2*k % 5:2*k % 5+2]) if i == at[0] else NEW[(2*k+3) % 5]
                # every variable stays in the model
                d[i] = equation(*eq)[0]
                a.eqs[i] = eq
            if {v for e in a.eqs for v in e[1:3]} != set(c.names):
                ctx.assume(False)
            alts.append(d)
            contents.append(a)
        R = RegimeSwitchingModel(M, exprs=alts[0] if form == 'dict' else alts if form == 'list' else tuple(alts))
        ctx.same(len(R), n_alt+1, 'number of regimes')
        order = list(range(n_alt+1))
        if ctx.choice('backwards', [False, True]):
            order.reverse()
        for k in order:
            compare(ctx, R[k], ([c]+contents)[k], cls, pt, f'regime {k}', deep=False)
        compare(ctx, M, c, cls, pt, 'baseline', deep=False)
        # a change of an alternative stays there
        v = ctx.real('later', pref=Q(41, 4))
        R[n_alt].add_params(b=v)
        contents[-1].pars['b'] = v
        compare(ctx, M, c, cls, pt, 'baseline after', deep=False)
        compare(ctx, R[n_alt], contents[-1], cls, pt, 'changed regime', deep=False)


def h_copy(ctx, edit):
    c = base(ctx, rich=edit not in ('stoch', 'stochs'))
    with kept_statespace():
        cls, pt = model_class(ctx), points(ctx)
        M = c.build(cls)
        pending = ctx.choice('pending', ['built', 'read', 'changed'])
        if pending == 'read':
            read(M)
        elif pending == 'changed':
            c23.e_param(ctx, M, c, 0)
        N = M.copy()
        d = c.copy()
        compare(ctx, N, d, cls, pt, 'copy', deep=False)
        which = ctx.choice('changed', ['copy', 'original'])
        m, e = (N, d) if which == 'copy' else (M, c)
        if edit == 'related':
            # in place
            r = ctx.real('new_related', pref=Q(3, 8))
            m.stoch[1].corr['e'] = r
            m.update()
            e.corr['u', 'e'] = r
        else:
            c23.EDITS[edit](ctx, m, e, 1)
        if edit == 'determ':
            # paths belong to one model
            m.determ[0].values.append(7.0)
            name = m.determ.names[0]
            p, v = e.determ[name]
            e.determ[name] = (p, v + [7.0])
        compare(ctx, N, d, cls, pt, f'copy, {which} changed', deep=False)
        compare(ctx, M, c, cls, pt, f'original, {which} changed', deep=False)


def h_share(ctx):
    """models made from the same lists and dictionaries do not share them"""
    c = base(ctx)
    with kept_statespace():
        cls, pt = model_class(ctx), points(ctx)
        M = c.build(cls)
        d = c.copy()
        N = cls(endog=M.endog.names, stoch=M.stoch.names, determ=list(M.determ.names), params=M.params, shocks=c.shock_dict(), exprs=M.exprs,
                local_params=M.local_params, initial=dict(c.initial), terminal=dict(c.terminal), historical=dict(c.historical), name='n')
        e = ctx.choice('edit', ['param', 'item', 'local', 'replace', 'order', 'swap', 'endog'])
        c23.EDITS[e](ctx, N, d, 1)
        compare(ctx, M, c, cls, pt, 'original', deep=False)
        compare(ctx, N, d, cls, pt, 'second', deep=False)


def h_unusable(ctx):
    """asking for what is not there is an error of its own kind"""
    c = base(ctx)
    with kept_statespace():
        cls = model_class(ctx)
        M = c.build(cls)
        kind = ctx.choice('kind', ['none', 'sigma', 'two in one', 'one in two', 'no regimes'])
        two = [('x < 1', 'x > 1'), ('y < 1', 'y > 1')]
        con = lambda k: Constraint(two[0] if k == 1 else two, endog=M.endog, params=M.params, exog=M.stoch)
        try:
            if kind == 'none':
                RegimeSwitchingModel(M)
            elif kind == 'sigma':
                RegimeSwitchingModel(M, sigma={'e': 2.0})
            elif kind == 'two in one':
                solve_occbin_one_constraint(M, M, con(2), shocks=[1.0])
            elif kind == 'one in two':
                solve_occbin_two_constraints(M, M, M, M, con(1), shocks=[1.0])
            else:
                OccBinSolution(M, two[0], shocks=[1.0]).solve()
        except (NotImplementedError, ValueError) as e:
            ctx.same(type(e).__name__, 'NotImplementedError' if kind in ('sigma', 'no regimes') else 'ValueError', 'error')
        else:
            ctx.fail(f'{kind}: accepted')


def cases(tier):
    quick = tier == 'quick'
    out = []
    P, D = patch_all(), patch_all(extra=derivative_stubs)
    def add(name, fn, patch=P, weight=1, **k):
        out.append(dict(name=name, fn=fn, params=k, patch=patch, weight=weight, opts=dict(max_paths=20000, lazy_compare=fn is h_constraint)))
    for i, (n, T, nc) in enumerate(itertools.product((1, 2, 3), (1, 2, 3), (1, 2, 3))):
        for j, given in enumerate(('names', 'variables', 'list')):
            for f in range(len(FORMS)):
                if 2*T*nc > (8 if quick else 12):
                    continue
                if quick and (f + i + 4*j) % 6 or not quick and (f + i + j) % 2:
                    continue
                add(f'constraint-{n}-{T}-{nc}-{given}-{f}', h_constraint, n=n, T=T, ncon=nc, form=f, given=given)
    add('malformed', h_malformed)
    for form, k in (('dict', 1), ('list', 1), ('list', 2), ('tuple', 2)) + (() if quick else (('list', 3),)):
        add(f'regimes-{form}-{k}', h_regimes, D, 20**k, form=form, n_alt=k)
    for e in list(c23.EDITS) + ['related']:
        add(f'copy-{e}', h_copy, D, 5, edit=e)
    add('share', h_share, D)
    add('unusable', h_unusable, D)
    return out
