"""C22: sample statistics of a simulation describe its paths."""
import numpy as np
from .common import *
from .models import *
from .eqs import sqrt
from .c13 import prep
from pynare.simul import ModelSimulation, LinearSimulation

PROPERTY = 'C22'
BOUNDS = ('symbolic paths of up to 3 variables and 5 periods (thorough 4 variables, 6 periods); every number of dropped periods and '
          'every number of lags that leaves two periods to compare, and the impossible ones next to them')
ASSUMPTIONS = ['every variable moves after dropping (a positive sample variance)',
               'a DataFrame keeps the array, index and columns it is given']


def setup(ctx, struct, T, linear=False):
    n = len(struct)
    M = hmodel(base(struct, 1), ss=ctx.reals('ss', (n,)), sigma=eye(ctx, 1))
    paths = ctx.reals('y', (T, n))
    shocks = ctx.reals('e', (T, 1))
    sim = LinearSimulation(M, 1, paths, shocks) if linear else ModelSimulation(M, paths, shocks)
    return sim, paths, names(struct)


def moments(paths, drop):
    kept = [list(r) for r in paths[drop:]]
    N, n = len(kept), len(kept[0])
    mean = [sum(r[i] for r in kept)/N for i in range(n)]
    c = [[r[i]-mean[i] for i in range(n)] for r in kept]
    cov = lambda i, j, k=0: sum(c[t][i]*c[t-k][j] for t in range(k, N))/(N-k)
    return N, n, cov


def entry(ctx, frame, i, j):
    return frame.iloc[i, j]


def h_corr(ctx, struct, T, linear=False, default=False):
    sim, paths, nm = setup(ctx, struct, T, linear)
    before = paths.copy()
    drop = 0 if default else ctx.choice('drop', range(T-1))
    N, n, cov = moments(paths, drop)
    for i in range(n):
        ctx.premise(cov(i, i) > Q(1, 10))
    out = sim.corr() if default else sim.corr(drop=drop)
    ctx.same(out.shape, (n, n), 'shape')
    ctx.same(list(out.index), nm, 'rows')
    ctx.same(list(out.columns), nm, 'columns')
    for i in range(n):
        ctx.eq(entry(ctx, out, i, i), const(ctx, 1), f'unit diagonal {i}')
        for j in range(n):
            r = entry(ctx, out, i, j)
            ctx.eq(r*sqrt(cov(i, i))*sqrt(cov(j, j)), cov(i, j), f'corr {i}{j}')
            if i < j:
                ctx.eq(r, entry(ctx, out, j, i), f'symmetric {i}{j}')
    ctx.eq(sim.paths, before, 'paths untouched')


def h_autocorr(ctx, struct, T, linear=False, default=None):
    sim, paths, nm = setup(ctx, struct, T, linear)
    before = paths.copy()
    if default:
        drop, p = 0, 5
    else:
        drop = ctx.choice('drop', range(T-1))
        p = ctx.choice('p', range(1, T-drop))
    N, n, cov = moments(paths, drop)
    for i in range(n):
        ctx.premise(cov(i, i) > Q(1, 10))
    out = sim.autocorr() if default else sim.autocorr(p=p, drop=drop)
    ctx.same(out.shape, (n, p), 'shape')
    ctx.same(list(out.index), nm, 'rows')
    ctx.same(list(out.columns), [f'k_{k}' for k in range(1, p+1)], 'columns')
    for i in range(n):
        for k in range(1, p+1):
            ctx.eq(entry(ctx, out, i, k-1)*cov(i, i), cov(i, i, k), f'autocorr {i} lag {k}')
    ctx.eq(sim.paths, before, 'paths untouched')


def h_reject(ctx, struct, T):
    sim, paths, nm = setup(ctx, struct, T)
    N, n, cov = moments(paths, 0)
    for i in range(n):
        ctx.premise(cov(i, i) > Q(1, 10))
    what = ctx.choice('what', ['corr', 'autocorr drop', 'autocorr lags'])
    if what == 'autocorr lags':
        drop = ctx.choice('drop', range(T-1))
        p = ctx.choice('p', [T-drop, T-drop+1, T-drop+3])
        call = lambda: sim.autocorr(p=p, drop=drop)
    else:
        drop = ctx.choice('drop', [-T-1, -2, -1, T, T+1, T+7])
        call = (lambda: sim.corr(drop=drop)) if what == 'corr' else (lambda: sim.autocorr(p=1, drop=drop))
    try:
        call()
    except ValueError:
        ctx.true(True, 'rejected')
    else:
        ctx.fail(f'{what} accepted')


def cases(tier):
    # (a symbolic T by n array of paths; the quick sizes keep each query under a second)
    cs = []
    add = lambda nm, f, st, T, **k: cs.append(dict(name=f'{nm}-{st}-{T}' + ''.join(f'-{v}' for v in k), fn=f, params=dict(struct=st, T=T, **k), patch=prep(st, 1, 1)))
    for st, T in [('s', 3), ('sm', 3), ('ssf', 4), ('sm', 5)] + ([('sbmf', 4), ('ssf', 6)] if tier == 'thorough' else []):
        add('corr', h_corr, st, T)
        add('autocorr', h_autocorr, st, T)
        add('reject', h_reject, st, T)
    add('corr', h_corr, 'sm', 4, linear=True, default=True)
    add('autocorr', h_autocorr, 's', 7, default=True)
    add('autocorr', h_autocorr, 'sf', 3, linear=True)
    return cs
