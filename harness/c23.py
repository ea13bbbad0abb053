"""C23: a changed model behaves like a freshly built one."""
import copy
import numpy as np
from .common import *
from .content import *
from .eqs import derivative_stubs
from pynare.core.variables import VarArray, EndogVar, StochVar, DetermVar
from pynare.core.expressions import ModelExprs

PROPERTY = 'C23'
BOUNDS = ('models of two variables and one shock, with calibrated parameters and locally-defined ones; every sequence of up to two (thorough '
          'three) of fifteen kinds of edit, everything derived read or not before each; every parameter, moment, boundary value, steady state and '
          'point symbolic; name lookups: up to four names, every list of up to three requests')
ASSUMPTIONS = ['the steady state is a given value for each name (C09)', 'derivatives are exact', 'the state space and the solution only record '
               'the Jacobian they were made from (C10, C11)', 'equations and parameters changed in place are followed by update(), or by one of the add methods']


def base(ctx):
    pars = {p: ctx.real('p_'+p, pref=Q(i+2, 5)) for i, p in enumerate('abc')}
    c = Content(['x', 'y'], ['e'], pars, {'l': ctx.real('p_l', pref=Q(3, 2)), 'm': ctx.real('p_m', pref=Q(1, 7))},
                [('ar', 'x', 'y', 'e'), ('fw', 'y', 'x', 'e')])
    c.initial = {'y': ctx.real('init_y', pref=2)}
    c.var = {'e': ctx.real('var_e', lo=0, pref=Q(5, 2))}
    return c


# each: (ctx, model, content, step). the content changes in place
def e_param(ctx, M, c, k):
    v = ctx.real(f'new_a{k}', pref=Q(7, 3))
    M.add_params(a=v)
    c.pars['a'] = v
    c.defs.pop('a', None)


def e_params(ctx, M, c, k):
    v, w = ctx.real(f'new_b{k}', pref=Q(9, 4)), ctx.real(f'new_d{k}', pref=Q(11, 4))
    M.add_params(d=w, b=v, c='d*b')
    c.pars.update(b=v, d=w)
    c.pars.pop('c', None)
    c.defs['c'] = 'd*b'


def e_item(ctx, M, c, k):
    v = ctx.real(f'new_c{k}', pref=Q(13, 4))
    M.params['c'] = v
    M.update()
    c.pars['c'] = v
    c.defs.pop('c', None)


def e_drop(ctx, M, c, k):
    if 'd' in c.pars and 'c' not in c.defs:
        del M.params['d']
        del c.pars['d']
    else:
        v = ctx.real(f'new_dd{k}', pref=Q(1, 4))
        M.params.update({'d': v})
        c.pars['d'] = v
    M.update()


def e_local(ctx, M, c, k):
    v = ctx.real(f'new_l{k}', pref=Q(17, 4))
    M.local_params['l'] = v
    M.update()
    c.local['l'] = v
    # an equation that uses it
    if not any(e[0] == 'loc' for e in c.eqs):
        e_replace(ctx, M, c, k, ('loc', c.names[-1], c.names[0], c.shocks[0]), len(c.eqs)-1)


def e_replace(ctx, M, c, k, eq=None, at=0):
    eq = eq or (('mix', 'x', 'y', 'e') if c.eqs[0][0] != 'mix' else ('st', 'x', 'y', 'e'))
    M.exprs[at] = equation(*eq)[0]
    M.update()
    c.eqs[at] = eq


def e_order(ctx, M, c, k):
    # the last equation goes first
    eq = c.eqs.pop()
    del M.exprs[len(M.exprs)-1]
    M.exprs.insert(0, equation(*eq)[0])
    c.eqs.insert(0, eq)
    M.update()


def e_swap(ctx, M, c, k):
    # list operations with parsed equations
    node = M.exprs.pop(0)
    M.add_exprs(node)
    c.eqs.append(c.eqs.pop(0))


def new_name(pool, have):
    return next((v for v in pool if v not in have), None)


def e_endog(ctx, M, c, k):
    v = new_name(POOL, c.names)
    if v is None:
        ctx.assume(False)
    i = ctx.real(f'new_init{k}', pref=Q(19, 4))
    M.add_endog(v, initial=i)
    c.names.append(v)
    c.initial[v] = i
    eq = ('ar', v, 'x', c.shocks[-1])
    M.add_exprs(equation(*eq)[0])
    c.eqs.append(eq)


def e_endogs(ctx, M, c, k):
    vs = [v for v in POOL if v not in c.names][::-1][:2]
    if len(vs) < 2:
        ctx.assume(False)
    i, h, t = (ctx.real(f'new_{b}{k}', pref=Q(21+j, 4)) for j, b in enumerate('iht'))
    M.add_endog(vs, initial={vs[1]: i}, historical={vs[0]: h}, terminal=t)
    c.names += vs
    c.initial[vs[1]] = i
    c.historical[vs[0]] = h
    c.terminal.update({v: t for v in vs})
    eqs = [('mix', vs[0], 'x', c.shocks[0]), ('fw', vs[1], vs[0], c.shocks[0])]
    M.add_exprs([equation(*e)[0] for e in eqs])
    c.eqs += eqs


def e_stoch(ctx, M, c, k):
    s = new_name(['e', 'u', 'v'], c.shocks)
    if s is None:
        ctx.assume(False)
    v, r = ctx.real(f'new_var{k}', lo=0, pref=Q(25, 4)), ctx.real(f'new_cov{k}', pref=Q(1, 3))
    M.add_stoch(s, variance=v, other='e', cov=r)
    c.var[s], c.cov[s, 'e'] = v, r
    use_shock(M, c, s)


def e_idle(ctx, M, c, k):
    """shocks that no equation names"""
    ss = [s for s in ('e', 'u', 'v') if s not in c.shocks][:2-k]
    if not ss:
        ctx.assume(False)
    v, r = ctx.real(f'new_idle{k}', lo=0, pref=Q(35, 4)), ctx.real(f'new_idle_cov{k}', pref=Q(1, 7))
    M.add_stoch(ss, variance=v, other='e', cov=r)
    for s in ss:
        c.var[s], c.cov[s, 'e'] = v, r
    c.shocks += ss


def use_shock(M, c, s):
    """by the first equation, in place of the shock it has"""
    c.shocks.append(s)
    eq = ('ar', c.names[0], c.names[1], s)
    M.exprs[0] = equation(*eq)[0]
    c.eqs[0] = eq
    M.update()


def e_stochs(ctx, M, c, k):
    ss = [s for s in ('e', 'u', 'v') if s not in c.shocks][::-1]
    if not ss:
        ctx.assume(False)
    v, r = ctx.real(f'new_vars{k}', lo=0, pref=Q(27, 4)), ctx.real(f'new_corr{k}', pref=Q(1, 6))
    if k == 0:
        M.add_stoch(ss, shocks={ss[0]: {'variance': v, 'other': 'e', 'corr': r}})
        c.var[ss[0]], c.corr[ss[0], 'e'] = v, r
    else:
        M.add_stoch(ss)
    c.shocks += ss
    M.exprs.insert(0, equation('ar', 'x', 'y', ss[0])[0])
    M.exprs.pop(1)
    c.eqs[0] = ('ar', 'x', 'y', ss[0])
    M.update()


def e_moment(ctx, M, c, k):
    v = ctx.real(f'new_v{k}', lo=0, pref=Q(29, 4))
    s = c.shocks[-1]
    M.stoch[len(c.shocks)-1].variance = v
    M.update()
    c.var[s] = v


def e_determ(ctx, M, c, k):
    s = new_name(['d1', 'd2', 'd3'], c.determ)
    v = ctx.real(f'new_path{k}', pref=Q(31, 4))
    M.add_determ(s, periods=[1, k+2], values=[v, 0.5])
    c.determ[s] = ([1, k+2], [v, 0.5])


def e_bound(ctx, M, c, k):
    v = ctx.real(f'new_bound{k}', pref=Q(33, 4))
    n = c.names[-1]
    M.endog[len(c.names)-1].initial = v
    c.initial[n] = v


EDITS = dict(param=e_param, params=e_params, item=e_item, drop=e_drop, local=e_local, replace=e_replace, order=e_order, swap=e_swap, endog=e_endog,
             endogs=e_endogs, stoch=e_stoch, stochs=e_stochs, idle=e_idle, moment=e_moment, determ=e_determ, bound=e_bound)


def h_edits(ctx, first, steps):
    c = base(ctx)
    with kept_statespace():
        cls = model_class(ctx)
        pt = points(ctx)
        M = c.build(cls)
        done = []
        for k in range(steps):
            if ctx.choice(f'read{k}', [True, False]):
                read(M)
            e = first if k == 0 else ctx.choice(f'edit{k}', list(EDITS))
            EDITS[e](ctx, M, c, k)
            done.append(e)
        compare(ctx, M, c, cls, pt, '+'.join(done))


def h_untouched(ctx):
    """a model as it was built, looked at twice"""
    c = base(ctx)
    with kept_statespace():
        cls, pt = model_class(ctx), points(ctx)
        M = c.build(cls)
        compare(ctx, M, c, cls, pt)
        M.update()
        compare(ctx, M, c, cls, pt, 'update')


# ------------------------------------------------------------------ name lookups
NAMES = ['k', 'kk', 'a', 'c']


def h_lookup(ctx, n, q):
    make = ctx.choice('kind', [EndogVar, StochVar, DetermVar])
    names = NAMES[:n] if ctx.choice('order', [True, False]) else NAMES[:n][::-1]
    vs = [make(v) for v in names]
    A = VarArray(vs)
    ctx.same(list(A.names), names, 'names')
    ask = [ctx.choice(f'ask{i}', names + ['zz', 'K', '']) for i in range(q)]
    objects = ctx.choice('objects', [False, True])
    key = [make(v) for v in ask] if objects else ask
    key = ctx.choice('container', [list, tuple, np.array])(key) if q != 1 else key[0]
    if all(v in names for v in ask):
        got = A.get_loc(key)
        want = [names.index(v) for v in ask]
        ctx.same(int(got) if q == 1 else [int(g) for g in got], want[0] if q == 1 else want, 'positions')
        # the part of the array, in that order
        if q > 1:
            ctx.same(list(A[got].names), ask, 'selected names')
    else:
        try:
            got = A.get_loc(key)
        except KeyError:
            ctx.true(True, 'unknown names are rejected')
        else:
            ctx.fail('unknown names are rejected')
    for v in ask:
        ctx.same(v in A, v in names, 'membership')
        ctx.same(make(v) in A, v in names, 'membership of variables')


# ------------------------------------------------------------------ the list of equations
def h_list(ctx, steps):
    """the list of equations behaves as a list"""
    texts = ['x = a*y', 'y - 2 = x(+1);', 'x^2 = -y(-1)', '3*x = y']
    ref, E = texts[:2], ModelExprs(texts[:2])
    other = ModelExprs(E)
    ops = []
    for k in range(steps):
        op = ctx.choice(f'op{k}', ['append', 'insert', 'set', 'del', 'pop', 'extend', 'iadd', 'reverse'])
        i = ctx.choice(f'at{k}', [0, 1, -1]) if op in ('insert', 'set', 'del', 'pop') else 0
        t = texts[2+k % 2]
        ops.append(op)
        if op in ('set', 'del', 'pop') and not -len(ref) <= i < len(ref):
            ctx.assume(False)
        if op in ('append', 'insert', 'extend'):
            for l in (ref, E):
                getattr(l, op)(*dict(append=(t,), insert=(i, t), extend=([t, texts[0]],))[op])
        elif op == 'iadd':
            ref += [t]
            E += [t]
        elif op == 'set':
            ref[i] = E[i] = t
        elif op == 'del':
            del ref[i]
            del E[i]
        elif op == 'pop':
            ref.pop(i)
            E.pop(i)
        else:
            ref.reverse()
            E.reverse()
    ctx.same(len(E), len(ref), 'length')
    ctx.same([dump(e) for e in E], [dump(ModelExprs.parse(t)) for t in ref], 'equations')
    if ref and 'reverse' not in ops:
        # parsed equations have no text
        shown = [''.join(l.split()).rstrip(';') for l in str(E).splitlines()[1:]]
        ctx.same(shown, [''.join(t.split()).rstrip(';') for t in ref], 'printed equations')
    ctx.same([dump(e) for e in other], [dump(ModelExprs.parse(t)) for t in texts[:2]], 'equations of the copy')


def dump(node):
    if isinstance(node, (list, tuple)):
        return [dump(n) for n in node]
    if hasattr(node, '__dict__') and type(node).__module__.startswith('pynare.parsing'):
        return (type(node).__name__, sorted((k, dump(v)) for k, v in node.__dict__.items() if k not in ('lineno', 'column', 'loc', 'location', 'lexpos')))
    return repr(node)


def cases(tier):
    quick = tier == 'quick'
    P = patch_all(extra=derivative_stubs)
    out = [dict(name='untouched', fn=h_untouched, params={}, patch=P)]
    for e in EDITS:
        for k in (1, 2) if quick else (1, 2, 3):
            out.append(dict(name=f'{e}-{k}', fn=h_edits, params=dict(first=e, steps=k), patch=P, weight=20**k, opts=dict(max_paths=40000)))
    for n in (1, 2, 3, 4):
        for q in (0, 1, 2) if quick or n > 3 else (0, 1, 2, 3):
            out.append(dict(name=f'lookup-{n}-{q}', fn=h_lookup, params=dict(n=n, q=q), patch=P, weight=8**q))
    for k in (0, 1, 2):
        out.append(dict(name=f'list-{k}', fn=h_list, params=dict(steps=k), patch=P, weight=10**k))
    return out
