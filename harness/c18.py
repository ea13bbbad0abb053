"""C18: two-constraint piecewise paths obey regimes and both constraints."""
from fractions import Fraction
import numpy as np
from .common import *
from .occ import *
from .c17 import num, conditions, strings, shocks_for, steady
from pynare.core.solve.binding import solve_occbin_two_constraints, Constraint

PROPERTY = 'C18'
BOUNDS = ('one to three variables, one or two shocks; symbolic initial point and shocks (one or two shocked periods), up to 4 (from the reference point 7) expected '
          'periods (thorough 5 and 7); coefficients are fixed rationals, the bounds and the constants of the replaced equations are symbolic '
          'in the one-period cases; every assignment of the four regimes to periods is a candidate')
ASSUMPTIONS = ['the policy arrays handed to the algorithm solve the linearised reference model (C10), and have the shapes of the real solver',
               'the steady state is the given one (C09); derivatives are exact; coefficient matrices of a regime sequence are invertible']

SPECS = {
    # names, shocks, A, B, gy, gu, replaced equations of (first, second, both): {equation: (A row, B row, C row, E row, constant)}, conditions
    'tube': dict(names=['x'], shocks=['e'], A=[[.25]], B=[[-1]], gy=[[.5]], gu=[[1]],
                 alt=[{0: ([.5], [-1], [.25], [.5], -.5)}, {0: ([0], [-1], [.5], [.75], .25)}, {0: ([.25], [-2], [0], [1], 1)}],
                 con=[(('<', 0, 'lo'), ('>', 0, 'lo2')), (('>', 0, 'hi'), ('<', 0, 'hi2'))]),
    # swings: one bound, then the other
    'cycle': dict(names=['x'], shocks=['e'], A=[[0]], B=[[-1]], gy=[[-.875]], gu=[[2]],
                  alt=[{0: ([0], [-1], [-.75], [1], -.5)}, {0: ([0], [-1], [-.9375], [.75], .25)}, {0: ([0], [-2], [-1], [1], 1)}],
                  con=[(('<', 0, 'lo'), ('>', 0, 'lo2')), (('>', 0, 'hi'), ('<', 0, 'hi2'))]),
    # the first lasts, the second comes and goes
    'swing': dict(names=['x', 'y'], shocks=['e'], A=[[0, 0], [0, 0]], B=[[-1, 0], [0, -1]], gy=[[.75, 0], [0, -.875]], gu=[[-2], [2]],
                  alt=[{0: ([0, 0], [-1, 0], [.875, 0], [1], .125)}, {1: ([0, 0], [0, -1], [0, -.75], [1], .25)},
                       {0: ([0, 0], [-1, 0], [.5, 0], [1], .5), 1: ([0, 0], [0, -1], [0, -.5], [1], .5)}],
                  con=[(('<', 0, 'lo'), ('>', 0, 'lo2')), (('>', 1, 'hi'), ('<', 1, 'hi2'))]),
    'pair': dict(names=['a', 'b'], shocks=['e'], A=[[0, .25], [0, 0]], B=[[-1, .25], [.5, -1]], gy=[[.5, 0], [.25, 0]], gu=[[1], [-.5]],
                 alt=[{0: ([0, 0], [-1, 0], [.25, 0], [.5], .5)}, {1: ([0, 0], [0, -1], [.5, 0], [1], -.25)},
                      {0: ([0, .5], [-1, 0], [0, 0], [.25], .75), 1: ([0, 0], [.25, -1], [0, 0], [0], .5)}],
                 con=[(('<', 0, 'lo'), ('>', 1, 'hi')), (('>', 1, 'hi2'), ('<', 0, 'lo2'))]),
    'pairs': dict(names=['a', 'b', 'k'], shocks=['e', 'u'], A=[[0, .25, 0], [0, 0, .5], [0, 0, 0]], B=[[-1, .25, 0], [.5, -1, 0], [.5, 0, -1]],
                  gy=[[0, 0, .5], [0, 0, .25], [0, 0, .75]], gu=[[1, .5], [-.5, 0], [.25, 1]],
                  alt=[{0: ([0, 0, 0], [-1, 0, 0], [0, 0, .25], [.5, 0], .5)}, {2: ([0, 0, 0], [0, .5, -1], [.5, 0, 0], [1, .25], -.25)},
                       {0: ([0, .5, 0], [-1, 0, 0], [0, 0, 0], [.25, 0], .75), 2: ([0, 0, 0], [.25, 0, -1], [0, 0, .5], [0, 1], .5)}],
                  con=[(('<', 0, 'lo'), ('>', 0, 'hi')), (('>=', 2, 'hi2'), ('<', 1, 'lo2'))]),
}
INDEX = {(False, False): 0, (True, False): 1, (False, True): 2, (True, True): 3}


def build(ctx, sp, free):
    A, B, gy, gu = (num(ctx, sp[k]) for k in ('A', 'B', 'gy', 'gu'))
    ref = reference(A, B, gy, gu)
    out = [ref]
    for i, a in enumerate(sp['alt']):
        const_ = lambda e, d: ctx.real(f'd{i}{e}', pref=Fraction(d), nonzero=True) if free else const(ctx, d)
        out.append(replace(ref, {e: (*num(ctx, r[:4]), const_(e, r[4])) for e, r in a.items()}))
    return out, gy, gu


def limits(ctx, free):
    if not free:
        return {k: const(ctx, v) for k, v in dict(lo=-1, lo2=-.5, hi=.75, hi2=.5).items()}
    return {k: ctx.real(k, pref=Fraction(v)) for k, v in dict(lo=-1, lo2=-.5, hi=.75, hi2=.5).items()}


def h_linear(ctx, spec, periods, S, exog=None, max_iter=20, default=(), free=False, levels=None, restrained=False, two_d=False):
    sp = SPECS[spec]
    regs, gy, gu = build(ctx, sp, free == 'constants')
    bounds = limits(ctx, free == 'bounds')
    ms, texts, pars = models(ctx, regs, sp['names'], sp['shocks'], gy, gu, extra=bounds, **(steady(ctx, sp, levels) if levels else {}))
    n = len(sp['names'])
    init = [const(ctx, 0)]*n if 'init' in default else [ctx.real(f'init{v}') for v in range(n)]
    arr, us = shocks_for(ctx, sp, S, exog)
    given = mat(ctx, init)
    con = Constraint(strings(sp), endog=ms[0].endog, params=ms[0].params, exog=ms[0].stoch)
    kw = dict(exog=exog, shocks=arr, periods=periods, max_iter=max_iter, init=given, restrained=restrained)
    for d in default:
        del kw[d]
    with Warned() as w:
        got, shocks = solve_occbin_two_constraints(*ms, con, **kw)
    ctx.same(tuple(got.shape), (periods, n), 'shape')
    ctx.same(len(shocks), periods, 'periods of the returned shocks')
    for t in range(S):
        ctx.eq(shocks[t], arr[t], 'returned shocks')
    for t in range(S, periods):
        ctx.eq(shocks[t], 0*arr[0], 'no shocks afterwards')
    ctx.eq(given, mat(ctx, init), 'initial point untouched')
    check(ctx, regs, INDEX.get, conditions(sp, bounds), gy, gu, init, us, got, periods, bool(w))


def h_solve(ctx, spec, periods, S, exog=None, init=True, levels=None, restrained=False):
    """through the model's own method: the regimes are made from replaced equations"""
    sp = SPECS[spec]
    n = len(sp['names'])
    regs, gy, gu = build(ctx, sp, False)
    bounds = limits(ctx, False)
    ss = [const(ctx, Q(v+3, 2)) for v in range(n)] if levels else None
    pars = dict(bounds)
    if levels:
        pars.update({f's{v}': x for v, x in zip(sp['names'], ss)})
    texts = [text(ctx, r, sp['names'], sp['shocks'], f'k{i}', pars, bool(levels)) for i, r in enumerate(regs)]
    m = solvable(ctx, make(sp['names'], sp['shocks'], pars, texts[0]), mat(ctx, ss or [const(ctx, 0)]*n), gy, gu)
    exprs = [{e: t[e] for e in a} for a, t in zip(sp['alt'], texts[1:])]
    y0 = [ctx.real(f'init{v}') for v in range(n)] if init else [const(ctx, 0)]*n
    arr, us = shocks_for(ctx, sp, S, exog)
    kw = dict(periods=periods, shocks=arr)
    if init:
        kw['init'] = mat(ctx, y0)
    if exog:
        kw['exog'] = exog
    if restrained:
        kw['restrained'] = True
    with no_statespace(), Warned() as w:
        sol = m.solve(constraint=strings(sp), exprs=exprs, **kw)
    got = sol.paths
    ctx.same(tuple(got.shape), (periods, n), 'shape')
    ctx.true(m.solution is sol, 'kept as the solution of the model')
    check(ctx, regs, INDEX.get, conditions(sp, bounds), gy, gu, y0, us, got, periods, bool(w))


def cases(tier):
    cs = []
    P = patch_all(extra=derivative_stubs)
    def lin(sp, T, S, fn=h_linear, **k):
        nm = f'{"solve-" if fn is h_solve else ""}{sp}-{T}-{S}' + ''.join('-'+(''.join(v) if isinstance(v, tuple) else f'{a}{v}') for a, v in k.items() if v)
        cs.append(dict(name=nm, fn=fn, params=dict(spec=sp, periods=T, S=S, **k), patch=P, weight=4**(T+S)))
    deep = tier != 'quick'
    for sp in ('tube', 'pair'):
        for fr in ('constants', 'bounds') if deep else ('constants',):
            lin(sp, 1, 1, free=fr, max_iter=3 if fr == 'bounds' else 6, default=('init',))
        lin(sp, 1, 1)
        for k in (1, 2, 4):
            lin(sp, 2, 1, max_iter=k)
            lin(sp, 3, 1, max_iter=k)
        lin(sp, 2, 1)
        lin(sp, 2, 1, restrained=True, max_iter=5)
        lin(sp, 2, 2, default=('init', 'periods', 'exog') + (('max_iter',) if deep else ()), max_iter=3)
        for lv in ('linear', 'same', 'other'):
            lin(sp, 2, 1, levels=lv, max_iter=3)
        lin(sp, 4, 1)
        if deep:
            lin(sp, 2, 2)
            lin(sp, 3, 1)
            lin(sp, 5, 1)
            lin(sp, 3, 2, max_iter=3)
    for sp, T, S in [('cycle', 5, 1), ('swing', 5, 1), ('cycle', 7, 1), ('swing', 7, 1)] + ([('cycle', 3, 2), ('swing', 3, 2)] if deep else []):
        lin(sp, T, S, max_iter=5, default=('init',))
    for ex in ('u', ('u', 'e'), ('e', 'u')):
        lin('pairs', 2, 1, exog=ex, max_iter=4, default=('init',))
    lin('pairs', 2, 2, exog='e', default=('init',), max_iter=3)
    lin('pairs', 2, 1, exog='u', levels='other', default=('init',))
    lin('tube', 2, 1, h_solve, restrained=True)
    lin('pair', 2, 1, h_solve, levels=True)
    lin('pairs', 2, 1, h_solve, exog='u', init=False)
    if deep:
        lin('pairs', 2, 1, exog='u')
        lin('pairs', 2, 1, exog=('u', 'e'), max_iter=4)
    return cs
