"""C17: one-constraint piecewise paths obey regimes and the constraint."""
import numpy as np
from .common import *
from .occ import *
from pynare.core.solve.binding import solve_occbin_one_constraint, Constraint

PROPERTY = 'C17'
BOUNDS = ('one to three variables, one or two shocks; symbolic initial point and shocks (one to three shocked periods), up to 5 (from the reference point 7) expected '
          'periods (thorough 6 and 9); coefficients are fixed rationals, or symbolic in the one-period scalar case; the bounds and the constant of '
          'the replaced equation are symbolic in the one-period cases; every assignment of regimes to periods is a candidate')
ASSUMPTIONS = ['the policy arrays handed to the algorithm solve the linearised reference model (C10), and have the shapes of the real solver',
               'the steady state is the given one (C09); derivatives are exact; coefficient matrices of a regime sequence are invertible']


def scalar(ctx, forward):
    """x, everything symbolic"""
    z = const(ctx, 0)
    a = ctx.real('a', nonzero=True, pref=Q(1, 3)) if forward else z
    A, B = [[a]], [[ctx.real('b', nonzero=True, pref=-1)]]
    gy, gu = [[ctx.real('gy', nonzero=True, pref=Q(1, 2))]], [[ctx.real('gu', nonzero=True, pref=1)]]
    ref = reference(A, B, gy, gu)
    alt = replace(ref, {0: ([ctx.real('a1', nonzero=True, pref=Q(1, 5)) if forward else z], [ctx.real('b1', nonzero=True, pref=-1)],
                            [ctx.real('c1', nonzero=True, pref=Q(1, 4))], [ctx.real('e1', nonzero=True, pref=Q(1, 2))], ctx.real('d1', nonzero=True, pref=1))})
    return ref, alt, gy, gu


def h_scalar(ctx, forward, periods, S, max_iter=20):
    ref, alt, gy, gu = scalar(ctx, forward)
    lo, hi = ctx.real('lo', pref=-1), ctx.real('hi', pref=Q(1, 2))
    ctx.premise(lo <= hi)
    ms, texts, pars = models(ctx, [ref, alt], ['x'], ['e'], gy, gu, extra={'lo': lo, 'hi': hi})
    init = [ctx.real('init')]
    us = [ctx.real(f'u{t}') for t in range(S)]
    con = Constraint(('x < lo', 'x > hi'), endog=ms[0].endog, params=ms[0].params, exog=ms[0].stoch)
    with Warned() as w:
        got, shocks = solve_occbin_one_constraint(ms[0], ms[1], con, shocks=mat(ctx, us), init=mat(ctx, init), periods=periods, max_iter=max_iter)
    ctx.same(tuple(got.shape), (periods, 1), 'shape')
    conds = [(Cond('<', lambda y: y[0], lambda y: lo), Cond('>', lambda y: y[0], lambda y: hi))]
    check(ctx, [ref, alt], lambda f: int(f[0]), conds, gy, gu, init, [[u] for u in us], got, periods, bool(w))



# ------------------------------------------------------------------ numbers as coefficients: everything is linear


def num(ctx, m):
    return [[const(ctx, x) for x in r] for r in m]


SPECS = {
    # names, shocks, A, B, gy, gu, replaced equations (A row, B row, C row, E row), bind, relax as (op, variable, bound)
    'jump': dict(names=['x'], shocks=['e'], A=[[.25]], B=[[-1]], gy=[[.5]], gu=[[1]],
                 alt={0: ([.5], [-1], [.25], [.5])}, con=[(('<', 0, 'lo'), ('>', 0, 'hi'))]),
    'back': dict(names=['x'], shocks=['e'], A=[[0]], B=[[-1]], gy=[[-.5]], gu=[[2]],
                 alt={0: ([0], [-1], [.75], [1])}, con=[(('>', 0, 'hi'), ('<', 0, 'lo'))]),
    # swings: the regimes take turns
    'cycle': dict(names=['x'], shocks=['e'], A=[[0]], B=[[-1]], gy=[[-.875]], gu=[[2]],
                  alt={0: ([0], [-1], [-.75], [1])}, con=[(('>', 0, 'hi'), ('<', 0, 'lo'))]),
    'swing': dict(names=['x', 'y'], shocks=['e'], A=[[0, .125], [.25, 0]], B=[[-1, .25], [.5, -1]], gy=[[-.875, .25], [.25, -.5]], gu=[[2], [.5]],
                  alt={1: ([0, 0], [.25, -1], [-.5, 0], [1])}, con=[(('>', 1, 'hi'), ('<', 0, 'lo'))]),
    # an output gap with inertia and expectations, a rule and its floor
    'floor': dict(names=['y', 'r'], shocks=['e'], A=[[.25, 0], [0, 0]], B=[[-1, -.5], [.75, -1]], gy=[[.5, 0], [.375, 0]], gu=[[1], [.75]],
                  alt={1: ([0, 0], [0, -1], [0, 0], [0])}, con=[(('<', 1, 'lo'), ('>', 0, 'hi'))]),
    # the constrained equation is the first one; two shocks; the constraint is replaced by a rule with lags
    'two': dict(names=['r', 'y', 'k'], shocks=['e', 'u'], A=[[0, 0, 0], [0, .25, .5], [0, 0, 0]], B=[[-1, .5, .25], [-.5, -1, 0], [0, .5, -1]],
                gy=[[.125, 0, .25], [.25, 0, .125], [.5, 0, .5]], gu=[[1, .25], [.5, 0], [.25, 1]],
                alt={0: ([0, .25, 0], [-1, 0, 0], [.5, 0, 0], [.25, 0])}, con=[(('<=', 0, 'lo'), ('>', 1, 'hi'))]),
}


def build(ctx, sp, free=True):
    A, B, gy, gu = (num(ctx, sp[k]) for k in ('A', 'B', 'gy', 'gu'))
    ref = reference(A, B, gy, gu)
    rws = {e: (*num(ctx, r), ctx.real(f'd{e}', pref=Q(1, 2), nonzero=True) if free else const(ctx, Q(1, 2))) for e, r in sp['alt'].items()}
    return ref, replace(ref, rws), gy, gu


def conditions(sp, bounds):
    side = lambda s: Cond(s[0], lambda y: y[s[1]], lambda y: bounds[s[2]])
    return [(side(a), side(b)) for a, b in sp['con']]


def strings(sp):
    out = [tuple(f'{sp["names"][v]} {op} {b}' for op, v, b in pair) for pair in sp['con']]
    return out[0] if len(out) == 1 else out


def shocks_for(ctx, sp, S, exog):
    """(argument for exog, array of shocks, list of full vectors of innovations)"""
    ne = len(sp['shocks'])
    z = const(ctx, 0)
    if exog is None or isinstance(exog, str):
        k = 0 if exog is None else sp['shocks'].index(exog)
        us = [ctx.real(f'u{t}') for t in range(S)]
        return mat(ctx, us), [[u if j == k else z for j in range(ne)] for u in us]
    ks = [sp['shocks'].index(e) for e in exog]
    us = [[ctx.real(f'u{t}_{k}') for k in ks] for t in range(S)]
    return mat(ctx, us), [[u[ks.index(j)] if j in ks else z for j in range(ne)] for u in us]


def steady(ctx, sp, levels):
    """steady states, of the reference and of the other regime"""
    n = len(sp['names'])
    ss = [const(ctx, Q(v+3, 2)) for v in range(n)]
    if levels == 'linear':
        return dict(ss=ss)
    return dict(ss=ss, quad=levels, alt_ss=[const(ctx, Q(7-3*v, 4)) for v in range(n)])


def h_linear(ctx, spec, periods, S, exog=None, max_iter=20, default=(), free=True, levels=None):
    sp = SPECS[spec]
    ref, alt, gy, gu = build(ctx, sp, free)
    if free:
        bounds = {'lo': ctx.real('lo', pref=-1), 'hi': ctx.real('hi', pref=Q(1, 2))}
        ctx.premise(bounds['lo'] <= bounds['hi'])
    else:
        bounds = {'lo': const(ctx, -1), 'hi': const(ctx, Q(1, 4))}
    ms, texts, pars = models(ctx, [ref, alt], sp['names'], sp['shocks'], gy, gu, extra=bounds, **(steady(ctx, sp, levels) if levels else {}))
    n = len(sp['names'])
    init = [const(ctx, 0)]*n if 'init' in default else [ctx.real(f'init{v}') for v in range(n)]
    arr, us = shocks_for(ctx, sp, S, exog)
    given = mat(ctx, init)
    con = Constraint(strings(sp), endog=ms[0].endog, params=ms[0].params, exog=ms[0].stoch)
    kw = dict(exog=exog, shocks=arr, periods=periods, max_iter=max_iter, init=given)
    for d in default:
        del kw[d]
    with Warned() as w:
        got, shocks = solve_occbin_one_constraint(ms[0], ms[1], con, **kw)
    ctx.same(tuple(got.shape), (periods, n), 'shape')
    ctx.same(len(shocks), periods, 'periods of the returned shocks')
    for t in range(S):
        ctx.eq(shocks[t], arr[t], 'returned shocks')
    for t in range(S, periods):
        ctx.eq(shocks[t], 0*arr[0], 'no shocks afterwards')
    ctx.eq(given, mat(ctx, init), 'initial point untouched')
    check(ctx, [ref, alt], lambda f: int(f[0]), conditions(sp, bounds), gy, gu, init, us, got, periods, bool(w))


def h_solve(ctx, spec, periods, S, form, exog=None, init=True, levels=None):
    """through the model's own method: the regimes are made from replaced equations"""
    sp = SPECS[spec]
    n = len(sp['names'])
    ref, alt, gy, gu = build(ctx, sp, free=False)
    bounds = {'lo': const(ctx, -1), 'hi': const(ctx, Q(1, 4))}
    ss = [const(ctx, Q(v+3, 2)) for v in range(n)] if levels else None
    pars = dict(bounds)
    if levels:
        pars.update({f's{v}': x for v, x in zip(sp['names'], ss)})
    texts = [text(ctx, r, sp['names'], sp['shocks'], f'k{i}', pars, bool(levels)) for i, r in enumerate((ref, alt))]
    m = solvable(ctx, make(sp['names'], sp['shocks'], pars, texts[0]), mat(ctx, ss or [const(ctx, 0)]*n), gy, gu)
    exprs = {e: texts[1][e] for e in sp['alt']}
    y0 = [ctx.real(f'init{v}') for v in range(n)] if init else [const(ctx, 0)]*n
    arr, us = shocks_for(ctx, sp, S, exog)
    kw = dict(periods=periods, shocks=arr)
    if init:
        kw['init'] = mat(ctx, y0)
    if exog:
        kw['exog'] = exog
    con = strings(sp)
    with no_statespace(), Warned() as w:
        sol = m.solve(constraint=con if form == 'dict' else [con], exprs=exprs if form == 'dict' else [exprs], **kw)
    got = sol.paths
    ctx.same(tuple(got.shape), (periods, n), 'shape')
    ctx.true(m.solution is sol, 'kept as the solution of the model')
    check(ctx, [ref, alt], lambda f: int(f[0]), conditions(sp, bounds), gy, gu, y0, us, got, periods, bool(w))


def cases(tier):
    cs = []
    P = patch_all(extra=derivative_stubs)
    def lin(sp, T, S, free=False, **k):
        nm = f'{sp}-{T}-{S}' + ('-free' if free else '') + ''.join('-'+(''.join(v) if isinstance(v, tuple) else str(v)) for v in k.values() if v)
        cs.append(dict(name=nm, fn=h_linear, params=dict(spec=sp, periods=T, S=S, free=free, **k), patch=P, weight=3**(T+S)))
    for sp in ('jump', 'back', 'floor'):
        lin(sp, 1, 1, free=True)
        for T, S in [(2, 1), (3, 1), (2, 2), (4, 1)] + ([(5, 1), (3, 2), (4, 2), (6, 1)] if tier != 'quick' else [(5, 1)]*(sp != 'back')):
            lin(sp, T, S)
        for k in (1, 2):
            lin(sp, 3, 1, max_iter=k)
        lin(sp, 3, 2 if tier == 'quick' or sp == 'back' else 3, default=('init', 'exog'))
        lin(sp, 2, 2, default=('periods', 'init', 'max_iter'))
    for sp, T, S in [('cycle', 5, 1), ('cycle', 7, 1), ('cycle', 4, 2), ('swing', 5, 1)] + ([('cycle', 9, 1), ('cycle', 5, 2), ('swing', 4, 2), ('swing', 6, 1)] if tier != 'quick' else []):
        lin(sp, T, S, default=('init',))
    for lv in ('linear', 'same', 'other'):
        for sp in ('jump', 'back', 'floor'):
            lin(sp, 2, 1, levels=lv)
    for ex in [None, 'u'] + ([('u', 'e'), ('e', 'u')] if tier != 'quick' else []):
        lin('two', 2, 1, exog=ex)
    lin('two', 2, 1, exog=('u', 'e'), default=('init',))
    lin('two', 2, 2, exog='u', default=('init', 'periods'))
    lin('two', 2, 1, exog='u', default=('init',), levels='other')
    lin('two', 2, 1, exog='e', default=('init',), levels='same')
    cs.append(dict(name='scalar-symbolic', fn=h_scalar, params=dict(forward=False, periods=1, S=1), patch=P, weight=50))
    if tier != 'quick':
        cs.append(dict(name='scalar-symbolic-forward', fn=h_scalar, params=dict(forward=True, periods=1, S=1), patch=P, weight=500))
    for sp, T, S, form, k in [('floor', 3, 1, 'dict', {}), ('floor', 2, 1, 'list', dict(levels='linear')), ('jump', 2, 2, 'dict', dict(init=False)),
                              ('two', 2, 1, 'dict', dict(exog='u', init=False))]:
        cs.append(dict(name=f'solve-{sp}-{T}-{S}-{form}', fn=h_solve, params=dict(spec=sp, periods=T, S=S, form=form, **k), patch=P))
    return cs
