"""C13: simulated paths follow the solved decision rule."""
import numpy as np
from .common import *
from .models import *
from pynare.simul import simulate

PROPERTY = 'C13'
BOUNDS = ('symbolic steady state, initial values, policy arrays, shock covariance and innovations; structures up to 4 (thorough 5) '
          'endogenous variables, 3 states, 2 shocks, 3 periods (thorough 4; up to 8 for models of one to three variables at first order), orders 1 and 2')
ASSUMPTIONS = ['the steady state, covariance and policy arrays handed to the simulator are the ones checked by C07, C09, C10, C11',
               'array shapes of the policy arrays are those the real solver returns for a model of the same structure']


def policy(ctx, struct, ne, order):
    """symbolic policy arrays: flat dictionaries plus arrays in the solver's shapes"""
    n, ns = len(struct), len(states(struct))
    gy, gu = ctx.reals('gy', (n, ns)), ctx.reals('gu', (n, ne))
    sh = shapes(struct, ne, 1)
    first = (gy.reshape(sh['gy']), gu.reshape(sh['gu']))
    if order == 1:
        return gy, gu, None, first, None
    xx, xu = ctx.reals('xx', (n, ns*ns)), ctx.reals('xu', (n, ns*ne))
    uu, d2 = ctx.reals('uu', (n, ne*ne)), ctx.reals('d2', (n,))
    sh = shapes(struct, ne, 2)
    second = (xx.reshape(sh['ghxx']), xu.reshape(sh['ghxu']), uu.reshape(sh['ghuu']), d2.reshape(sh['del2']))
    return gy, gu, (xx, xu, uu, d2), first, second


def covariance(ctx, ne, diag=False):
    """symbolic covariance and its upper triangular factor U (U' U = sigma)"""
    dt = object if ctx.sym else float
    sd = [ctx.real(f'sd{i}', lo=Q(1, 8), hi=4) for i in range(ne)]
    sig, U = np.empty((ne, ne), dtype=dt), np.empty((ne, ne), dtype=dt)
    U.fill(sd[0]*0)
    for i in range(ne):
        U[i, i] = sd[i]
        for j in range(i+1, ne):
            if not diag:
                U[i, j] = ctx.real(f'cc{i}{j}')
    U = mat(ctx, U)
    sig = np.dot(U.T, U)
    if ctx.sym:
        def chol(a, lower=False):
            if is_same(a, sig):
                return U.T if lower else U
            return None
        ctx.stubs['cholesky'] = chol
    return sig, U


def rule(ctx, struct, ne, ss, y, eps, gy, gu, so):
    """next period's levels, declaration order, straight from the definition"""
    st, dr = states(struct), dr_order(struct)
    x = [y[s] - ss[s] for s in st]
    out = [None]*len(struct)
    for p, v in enumerate(dr):
        t = ss[v]
        for j in range(len(st)):
            t = t + gy[p, j]*x[j]
        for k in range(ne):
            t = t + gu[p, k]*eps[k]
        if so:
            xx, xu, uu, d2 = so
            t = t + d2[p]
            for i in range(len(st)):
                for j in range(len(st)):
                    t = t + xx[p, i*len(st)+j]*x[i]*x[j]
                for k in range(ne):
                    t = t + xu[p, i*ne+k]*x[i]*eps[k]
            for k in range(ne):
                for l in range(ne):
                    t = t + uu[p, k*ne+l]*eps[k]*eps[l]
        out[v] = t
    return out


def h_sim(ctx, struct, ne, order, T, how):
    n = len(struct)
    m = base(struct, ne)
    gy, gu, so, first, second = policy(ctx, struct, ne, order)
    ss = ctx.reals('ss', (n,))
    sig, U = covariance(ctx, ne)
    M = hmodel(m, ss=ss, sigma=sig, first=first, second=second, order=order)
    shocks = ctx.reals('u', (T, ne))
    init = ctx.reals('y0', (n,)) if how != 'default' else None
    sh0, i0 = shocks.copy(), None if init is None else init.copy()
    if how == 'method':
        sim = M.simulate(shocks=shocks, init=init)
    elif how == 'resolve':
        sim = simulate(M, shocks=shocks, init=init, order=order)
    else:
        sim = simulate(M, shocks=shocks, init=init)
    y = list(ss if init is None else init)
    want = [y]
    for t in range(1, T):
        eps = [sum((shocks[t-1, i]*U[i, k] for i in range(ne)), 0*ss[0]) for k in range(ne)]
        y = rule(ctx, struct, ne, ss, y, eps, gy, gu, so)
        want.append(y)
    ctx.eq(sim.paths, np.array(want, dtype=object), 'path')
    ctx.same(sim.periods, T, 'number of periods')
    ctx.eq(shocks, sh0, 'innovations unchanged')
    if init is not None:
        ctx.eq(init, i0, 'initial values unchanged')


def h_order(ctx, struct, ne):
    """an explicit order re-solves; without one the existing solution is used"""
    n = len(struct)
    m = base(struct, ne)
    gy, gu, so, first, second = policy(ctx, struct, ne, 2)
    ss = ctx.reals('ss', (n,))
    sig, U = covariance(ctx, ne)
    have, ask = ctx.choice('have', [1, 2]), ctx.choice('ask', [0, 1, 2])
    M = hmodel(m, ss=ss, sigma=sig, first=first, second=second, order=have)
    T = 2
    shocks = ctx.reals('u', (T, ne))
    init = ctx.reals('y0', (n,))
    sim = simulate(M, shocks=shocks, init=init, order=ask)
    eps = [sum((shocks[0, i]*U[i, k] for i in range(ne)), 0*ss[0]) for k in range(ne)]
    use = ask or have
    ctx.eq(sim.paths[1], np.array(rule(ctx, struct, ne, ss, list(init), eps, gy, gu, so if use == 2 else None), dtype=object), 'path')
    ctx.same(sim.order, use, 'order of the simulation')


def h_random(ctx, struct, ne, order):
    """drawn innovations: as many periods as asked for, one column per variable"""
    n = len(struct)
    m = base(struct, ne)
    gy, gu, so, first, second = policy(ctx, struct, ne, order)
    ss = ctx.reals('ss', (n,))
    sig, U = covariance(ctx, ne)
    M = hmodel(m, ss=ss, sigma=sig, first=first, second=second, order=order)
    T = ctx.choice('T', [1, 2, 3])
    draws = []

    def draw(*size):
        z = ctx.reals(f'z{len(draws)}', size)
        draws.append(z)
        return z
    import numpy.random as npr
    old = npr.normal, npr.standard_normal, npr.randn
    tup = lambda s: tuple(s) if isinstance(s, (tuple, list)) else (s,)
    npr.normal = lambda loc=0., scale=1., size=None: loc + scale*draw(*tup(size))
    npr.standard_normal = lambda size=None: draw(*tup(size))
    npr.randn = lambda *size: draw(*size)
    try:
        sim = simulate(M, periods=T)
    finally:
        npr.normal, npr.standard_normal, npr.randn = old
    ctx.same(tuple(sim.paths.shape), (T, n), 'shape of the paths')
    want = [list(ss)]
    if len(draws) == 1 and draws[0].shape == (T, ne):
        # unit innovations, coloured by the covariance
        z = draws[0]
        eps = np.array([[sum((z[t, i]*U[i, k] for i in range(ne)), 0*ss[0]) for k in range(ne)] for t in range(T)], dtype=object)
        ctx.eq(sim.shocks, eps, 'drawn innovations have the declared covariance')
    else:
        eps = sim.shocks
    for t in range(1, T):
        want.append(rule(ctx, struct, ne, ss, want[-1], list(eps[t-1]), gy, gu, so))
    ctx.eq(sim.paths, np.array(want, dtype=object), 'path')


STRUCTS1 = [('b', 1), ('sb', 1), ('fb', 1), ('mb', 1), ('fbs', 1), ('bmf', 2), ('mfsb', 2), ('fbbs', 1), ('sfbm', 1), ('m', 2), ('bs', 2), ('fmm', 2)]
STRUCTS2 = [('sb', 1), ('fb', 1), ('mb', 1), ('bmf', 2), ('fbs', 1), ('mfsb', 2), ('fbs', 2), ('fbb', 1), ('sfbm', 1)]


def cases(tier):
    out = []
    T = 3 if tier == 'quick' else 4
    s1, s2 = list(STRUCTS1), list(STRUCTS2)
    if tier != 'quick':
        s1 += [('sbmfb', 2), ('ffbm', 2), ('bbb', 2)]
        s2 += [('sbmf', 2), ('bbf', 2), ('fmbs', 2)]

    for st, ne in s1:
        for how in ('given', 'default', 'method'):
            out.append(dict(name=f'first-{st}-{ne}-{how}', fn=h_sim, params=dict(struct=st, ne=ne, order=1, T=T, how=how), patch=prep(st, ne, 1)))
    for st, ne in s2:
        for how in ('given', 'default', 'resolve'):
            big = len(states(st))*ne > 2
            out.append(dict(name=f'second-{st}-{ne}-{how}', fn=h_sim,
                            params=dict(struct=st, ne=ne, order=2, T=(3 if not big or tier != 'quick' else 2) if how != 'resolve' else 2, how=how),
                            patch=prep(st, ne, 2), weight=5))
    # longer paths of smaller models
    for st, ne, T in [('b', 1, 8), ('sbf', 2, 6), ('bm', 2, 5)] + ([('bm', 1, 8), ('mfb', 2, 6)] if tier != 'quick' else []):
        out.append(dict(name=f'long-{st}-{ne}', fn=h_sim, params=dict(struct=st, ne=ne, order=1, T=T, how='given'), patch=prep(st, ne, 1), weight=5))
    for st, ne in [('fbs', 1), ('mb', 1), ('bmf', 2)]:
        out.append(dict(name=f'order-{st}-{ne}', fn=h_order, params=dict(struct=st, ne=ne), patch=prep(st, ne, 2)))
    for st, ne, o in [('fbs', 1, 1), ('bmf', 2, 1), ('mb', 1, 2), ('bmf', 2, 2)]:
        out.append(dict(name=f'random-{st}-{ne}-{o}', fn=h_random, params=dict(struct=st, ne=ne, order=o), patch=prep(st, ne, o)))
    return out


def prep(st, ne, order, **kw):
    p = patch_all(**kw)
    def go(ctx):
        base(st, ne)
        shapes(st, ne, 1)
        if order == 2:
            shapes(st, ne, 2)
        return p(ctx)
    return go
