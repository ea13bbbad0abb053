"""C16: variance decompositions attribute all variance to its shocks."""
import itertools
import numpy as np
from .common import *
from .models import *
from .c13 import prep
from .c15 import setup as base_setup
from pynare.stats.var import var_decomp

PROPERTY = 'C16'
BOUNDS = ('symbolic policy arrays (state transitions at most 0.9/(number of states) in modulus) and shock covariance; up to 4 endogenous '
          'variables, 2 states, 3 shocks; every ordered selection of up to two names')
ASSUMPTIONS = ['scipy.linalg.solve_discrete_lyapunov(a, q) returns the X with a X a\' - X + q = 0, positive semidefinite when q is',
               'the covariance is positive definite and its Cholesky factor moves by less than the tolerance when 1e-8 or less is added to its diagonal',
               'the policy arrays and covariance are the ones checked by C07, C10, C11']


def lower_cov(ctx, ne):
    """sigma = L L' (up to the perturbation the code adds), L lower triangular with a positive diagonal"""
    L = zeros(ctx, ne, ne)
    for i in range(ne):
        L[i, i] = ctx.real(f'sd{i}', lo=Q(1, 4), hi=2)
        for j in range(i):
            L[i, j] = ctx.real(f'lc{i}{j}')
    sig = np.dot(L, L.T)
    if ctx.sym:
        def chol(a, lower=False):
            d = shim.lift(a) - sig
            if d.shape != sig.shape:
                return None
            for i in range(ne):
                for j in range(ne):
                    if not d[i, j].is_const():
                        return None
                    v = d[i, j].value()
                    if v < 0 or v > 1e-8 or (i != j and v != 0):
                        return None
            return L.copy() if lower else L.T.copy()
        ctx.stubs['cholesky'] = chol
    return sig, L


def setup(ctx, struct, ne, order=1):
    n, st = len(struct), states(struct)
    ns, dr = len(st), dr_order(struct)
    m = base(struct, ne)
    gy, gu = ctx.reals('gy', (n, ns)), ctx.reals('gu', (n, ne))
    for p, v in enumerate(dr):
        if v in st:
            for j in range(ns):
                gy[p, j] = ctx.real(f'gs{p}{j}', lo=-Q(9, 10*ns), hi=Q(9, 10*ns))
    sh = shapes(struct, ne, 1)
    first, second = (gy.reshape(sh['gy']), gu.reshape(sh['gu'])), None
    if order == 2:
        sh = shapes(struct, ne, 2)
        second = tuple(ctx.reals(k, sh[k]) for k in ('ghxx', 'ghxu', 'ghuu', 'del2'))
    sig, L = lower_cov(ctx, ne)
    ss = ctx.reals('ss', (n,))
    M = hmodel(m, ss=ss, sigma=sig, first=first, second=second, order=order)
    GY, GU = zeros(ctx, n, ns), zeros(ctx, n, ne)
    for p, v in enumerate(dr):
        GY[v], GU[v] = gy[p], gu[p]
    A = zeros(ctx, ns, ns)
    for a, s in enumerate(st):
        A[a] = GY[s]
    B = np.dot(GU, L)
    # the states' covariance due to each shock alone, V_j = A V_j A' + b_j b_j'
    V = []
    for j in range(ne):
        b = [B[s, j] for s in st]
        q = zeros(ctx, ns, ns)
        for x in range(ns):
            for y in range(ns):
                q[x, y] = b[x]*b[y]
        V.append((q, lyap(ctx, A, q, j)))
    if ctx.sym:
        def stub(a, q, method=None):
            if is_same(a, A):
                for qq, X in V:
                    if is_same(q, qq):
                        return X.copy()
            return None
        ctx.stubs['solve_discrete_lyapunov'] = stub
    D = zeros(ctx, n, ne)
    for i in range(n):
        for j in range(ne):
            D[i, j] = sum((GY[i, x]*V[j][1][x, y]*GY[i, y] for x in range(ns) for y in range(ns)), B[i, j]*B[i, j])
    if ctx.sym:
        # sums of squares by construction: GY F F' GY' + B B
        for i in range(n):
            for j in range(ne):
                ctx.premise(D[i, j] >= 0)
    tot = [sum((D[i, j] for j in range(1, ne)), D[i, 0]) for i in range(n)]
    for i in range(n):
        ctx.assume(tot[i] > (0 if ctx.sym else 1e-4))
    return M, D, tot


def lyap(ctx, A, q, j):
    ns = A.shape[0]
    if not ctx.sym:
        A, q = np.asarray(A, float), np.asarray(q, float)
        return np.linalg.solve(np.eye(ns*ns) - np.kron(A, A), q.ravel()).reshape(ns, ns)
    # positive semidefinite: a Cholesky factor of unknowns
    F = zeros(ctx, ns, ns)
    for x in range(ns):
        for y in range(x+1):
            F[x, y] = ctx.fresh(f'v{j}_{x}{y}')
    X = np.dot(F, F.T)
    res = np.dot(np.dot(A, X), A.T) + q - X
    ctx.premise_eq(res, zeros(ctx, ns, ns))
    return X


def check(ctx, r, D, tot, rows, cols):
    want = np.empty((len(rows), len(cols)), dtype=object)
    for a, i in enumerate(rows):
        for b, j in enumerate(cols):
            want[a, b] = D[i, j]/tot[i]
    ctx.same(tuple(np.shape(r)), want.shape, 'shape')
    ctx.eq(r, want, 'share')


def h_all(ctx, struct, ne, order):
    M, D, tot = setup(ctx, struct, ne, order)
    n = len(struct)
    r = var_decomp(M) if ctx.choice('how', [0, 1]) else M.stats.var_decomp()
    check(ctx, r, D, tot, range(n), range(ne))
    for i in range(n):
        s = sum((r[i, j] for j in range(1, ne)), r[i, 0])
        ctx.eq(s, s*0 + 1, f'row {i} sums to one')
        for j in range(ne):
            if ctx.sym:
                # D is a sum of squares and tot is positive
                ctx.eq(r[i, j]*tot[i], D[i, j], f'share {i},{j} not negative')
            else:
                ctx.le(0*r[i, j], r[i, j], f'share {i},{j} not negative')


def h_select(ctx, struct, ne):
    M, D, tot = setup(ctx, struct, ne)
    nm, sh = names(struct), stochs(ne)
    sel = lambda v: [None, v[0], [v[-1]], [v[-1], v[0]], tuple(v[:2])]
    e = ctx.choice('endog', sel(nm) + [[nm[1], nm[2 % len(nm)], nm[0]]])
    s = ctx.choice('stoch', sel(sh))
    r = var_decomp(M, endog=e, stoch=s)
    lst = lambda x, v: list(range(len(v))) if x is None else [v.index(y) for y in ([x] if isinstance(x, str) else x)]
    check(ctx, r, D, tot, lst(e, nm), lst(s, sh))


def h_bad(ctx, struct, ne):
    """unknown names are rejected"""
    M, D, tot = setup(ctx, struct, ne)
    nm, sh = names(struct), stochs(ne)
    kw = ctx.choice('kw', [dict(endog='nothing'), dict(endog=[nm[0], 'nothing']), dict(stoch='nothing'), dict(stoch=[sh[0], 'nothing']),
                           dict(endog=sh[0]), dict(stoch=nm[0]), dict(endog=nm[0], stoch=nm[1]), dict(endog=[sh[0], nm[0]], stoch=sh[0])])
    try:
        var_decomp(M, **kw)
    except (ValueError, KeyError):
        ctx.true(True, 'rejected')
    else:
        ctx.fail(f'unknown name accepted: {kw}')


def h_one(ctx, struct):
    """a single shock generates everything"""
    M, D, tot = setup(ctx, struct, 1)
    nm = names(struct)
    e = ctx.choice('endog', [None, nm[-1], [nm[1], nm[0]], tuple(nm)])
    s = ctx.choice('stoch', [None, stochs(1)[0], stochs(1)])
    r = var_decomp(M, endog=e, stoch=s)
    k = len(nm) if e is None else 1 if isinstance(e, str) else len(e)
    ctx.same(tuple(np.shape(r)), (k, 1), 'shape')
    ctx.eq(r, np.ones((k, 1)), 'share')


def cases(tier):
    out = []
    ss = [('b', 2), ('sb', 2), ('fbs', 2), ('mb', 2), ('bmf', 2), ('fbs', 3), ('bs', 3), ('mfs', 2)]
    if tier != 'quick':
        ss += [('mfsb', 2), ('fbbs', 2), ('mb', 3), ('smbf', 3)]
    for st, ne in ss:
        out.append(dict(name=f'all-{st}-{ne}', fn=h_all, params=dict(struct=st, ne=ne, order=1), patch=prep(st, ne, 1), weight=3))
    for st, ne in [('fbs', 2), ('fb', 2)]:
        out.append(dict(name=f'all2-{st}-{ne}', fn=h_all, params=dict(struct=st, ne=ne, order=2), patch=prep(st, ne, 2), weight=3))
    for st, ne in [('fbs', 2), ('fbs', 3), ('mfs', 2)]:
        out.append(dict(name=f'select-{st}-{ne}', fn=h_select, params=dict(struct=st, ne=ne), patch=prep(st, ne, 1), weight=5))
    for st, ne in [('fbs', 2), ('sb', 1)]:
        out.append(dict(name=f'unknown-{st}-{ne}', fn=h_bad, params=dict(struct=st, ne=ne), patch=prep(st, ne, 1)))
    for st in ('fbs', 'sb'):
        out.append(dict(name=f'one-{st}', fn=h_one, params=dict(struct=st), patch=prep(st, 1, 1)))
    return out
