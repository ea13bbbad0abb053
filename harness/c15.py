"""C15: theoretical moments are those of the solved process."""
import numpy as np
from .common import *
from .models import *
from .c13 import covariance, prep
from pynare.stats import moments as mo

PROPERTY = 'C15'
BOUNDS = ('symbolic steady state, policy arrays and shock covariance; transitions of the states with entries at most 0.9/(number of '
          'states) in modulus; structures up to 4 endogenous variables, 2 (thorough 3) states, 2 shocks; lags up to 3; orders 1 and 2')
ASSUMPTIONS = ['scipy.linalg.solve_discrete_lyapunov(a, q) returns the X with a X a\' - X + q = 0, symmetric when q is',
               'scipy.linalg.solve returns the exact solution of a non-singular system',
               'the policy arrays and covariance are the ones checked by C07, C10, C11']


def setup(ctx, struct, ne, order, solved=True, diag=False):
    n, st = len(struct), states(struct)
    ns, dr = len(st), dr_order(struct)
    m = base(struct, ne)
    gy = ctx.reals('gy', (n, ns))
    gu = ctx.reals('gu', (n, ne))
    for p, v in enumerate(dr):
        if v in st:
            for j in range(ns):
                gy[p, j] = ctx.real(f'gs{p}{j}', lo=-Q(9, 10*ns), hi=Q(9, 10*ns))
    sh = shapes(struct, ne, 1)
    first, second, so = (gy.reshape(sh['gy']), gu.reshape(sh['gu'])), None, None
    if order == 2:
        xx, xu = ctx.reals('xx', (n, ns*ns)), ctx.reals('xu', (n, ns*ne))
        uu, d2 = ctx.reals('uu', (n, ne*ne)), ctx.reals('d2', (n,))
        sh = shapes(struct, ne, 2)
        second = (xx.reshape(sh['ghxx']), xu.reshape(sh['ghxu']), uu.reshape(sh['ghuu']), d2.reshape(sh['del2']))
        so = xx, xu, uu, d2
    ss = ctx.reals('ss', (n,))
    sig, U = covariance(ctx, ne, diag)
    M = hmodel(m, ss=ss, sigma=sig, first=first, second=second, order=order)
    if not solved:
        del M._solution
    # declaration order
    GY, GU = zeros(ctx, n, ns), zeros(ctx, n, ne)
    for p, v in enumerate(dr):
        GY[v], GU[v] = gy[p], gu[p]
    G = zeros(ctx, n, n)
    for j, s in enumerate(st):
        G[:, s] = GY[:, j]
    if ctx.sym:
        _hints(ctx, GY, st)
    return M, ss, sig, G, GU, GY, so


def _hints(ctx, GY, st):
    """the stationarity premise of the states, multiplied by products of observation rows"""
    prods = []
    n, ns = GY.shape
    for i in range(n):
        for k in range(i, n):
            for a in range(ns):
                for b in range(ns):
                    prods.append(GY[i, a]*GY[k, b])
    seen, uniq = set(), []
    for p in prods:
        if p.key() not in seen:
            seen.add(p.key()); uniq.append(p)

    def stub(a, q, method=None):
        a, q = shim.lift(a), shim.lift(q)
        n_ = a.shape[0]
        X = ctx.fresh_array('lyap', a.shape)
        if is_same(q, q.T):
            for i in range(n_):
                for j in range(i):
                    X[i, j] = X[j, i]
        res = np.dot(np.dot(a, X), a.T) + q - X
        ctx.premise_eq(res, zeros(ctx, n_, n_))
        ctx.lyap_x = X
        ctx.hint([res[i, j] for i in range(n_) for j in range(n_)], uniq)
        return X
    ctx.stubs['solve_discrete_lyapunov'] = stub


def h_cov(ctx, struct, ne, order, solved=True):
    M, ss, sig, G, R, GY, so = setup(ctx, struct, ne, order, solved)
    n = len(struct)
    C = mo.cov(M) if ctx.choice('how', [0, 1]) else M.stats.cov()
    ctx.same(tuple(np.shape(C)), (n, n), 'shape')
    RSR = np.dot(np.dot(R, sig), R.T)
    ctx.eq(np.dot(np.dot(G, C), G.T) + RSR, C, 'C = G C G\' + R S R\'')
    ctx.eq(C, C.T, 'symmetric')


def h_derived(ctx, struct, ne, order):
    M, ss, sig, G, R, GY, so = setup(ctx, struct, ne, order)
    n = len(struct)
    st = M.stats
    C = np.array(mo.cov(M), copy=True)
    V = [C[i, i] for i in range(n)]
    for i in range(n):
        if ctx.sym:
            ctx.assume(V[i] > 0)
        elif not V[i] > 0:
            raise Infeasible()
    ctx.eq(st.var(), np.array(V, dtype=object), 'variance')
    sd = [np.sqrt(v) if not ctx.sym else v.sqrt() for v in V]
    ctx.eq(st.std(), np.array(sd, dtype=object), 'standard deviation')
    want = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            want[i, j] = C[i, j]/(sd[i]*sd[j])
    ctx.eq(st.corr(), want, 'correlation')
    p = 2
    acv, acr = st.autocov(p=p), st.autocorr(p=p)
    for k in range(p):
        w = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                w[i, j] = acv[k, i, j]/(sd[i]*sd[j])
        ctx.eq(acr[k], w, f'autocorrelation {k+1}')


def h_acv(ctx, struct, ne, order, p, solved=True):
    M, ss, sig, G, R, GY, so = setup(ctx, struct, ne, order, solved)
    n = len(struct)
    acv = M.stats.autocov(p=p) if p else mo.autocov(M)
    p = p or 5
    C = mo.cov(M)
    ctx.same(tuple(np.shape(acv)), (p, n, n), 'shape')
    W = C
    for k in range(p):
        W = np.dot(G, W)
        ctx.eq(acv[k], W, f'autocovariance {k+1}')


def h_mean1(ctx, struct, ne, solved):
    M, ss, sig, G, R, GY, so = setup(ctx, struct, ne, 1, solved)
    ctx.eq(mo.mean(M), ss, 'mean')
    ctx.eq(M.stats.mean(), ss, 'mean')


def h_mean2(ctx, struct, ne):
    M, ss, sig, G, R, GY, so = setup(ctx, struct, ne, 2)
    n, st, dr = len(struct), states(struct), dr_order(struct)
    xx, xu, uu, d2 = so
    C = mo.cov(M)
    P = [[C[i, j] for j in st] for i in st]
    X = getattr(ctx, 'lyap_x', None)
    if X is not None:
        # the same numbers, by stationarity: one symbol each
        ix = range(len(st)) if X.shape[0] == len(st) else st
        X = [[X[i, j] for j in ix] for i in ix]
        ctx.eq(np.array(P, dtype=object), np.array(X, dtype=object), 'state covariance')
        P = X
    mean = mo.mean(M)
    dev = [mean[i]-ss[i] for i in range(n)]
    # the states' covariance is stationary, so the block of C is what the state equation has
    for p_, v in enumerate(dr):
        t = d2[p_]
        for a, s in enumerate(st):
            t = t + GY[v, a]*dev[s]
        for a in range(len(st)):
            for b in range(len(st)):
                t = t + xx[p_, a*len(st)+b]*P[a][b]
        for a in range(ne):
            for b in range(ne):
                t = t + uu[p_, a*ne+b]*sig[a, b]
        if ctx.sym:
            t = (t - dev[v])
            # clear the denominator of the resolvent: hints are polynomial
            ctx.eq(t, 0*t, f'mean of {names(struct)[v]}')
        else:
            ctx.eq(dev[v], t, f'mean of {names(struct)[v]}')


def cases(tier):
    out = []
    s1 = [('b', 1), ('sb', 1), ('fbs', 1), ('mb', 1), ('bmf', 2), ('fbs', 2), ('bs', 2), ('mfsb', 1)]
    s2 = [('fb', 1), ('fbs', 2), ('mb', 1), ('bs', 2)]
    if tier != 'quick':
        s1 += [('mfsb', 2), ('fbbm', 1), ('bbb', 2)]
        s2 += [('bmf', 2), ('sbm', 1)]
    for st, ne in s1:
        for solved in (True, False):
            out.append(dict(name=f'cov-{st}-{ne}-{int(solved)}', fn=h_cov, params=dict(struct=st, ne=ne, order=1, solved=solved), patch=prep(st, ne, 1)))
        out.append(dict(name=f'derived-{st}-{ne}', fn=h_derived, params=dict(struct=st, ne=ne, order=1), patch=prep(st, ne, 1)))
        out.append(dict(name=f'acv-{st}-{ne}', fn=h_acv, params=dict(struct=st, ne=ne, order=1, p=3), patch=prep(st, ne, 1)))
        out.append(dict(name=f'mean1-{st}-{ne}', fn=h_mean1, params=dict(struct=st, ne=ne, solved=ne == 1), patch=prep(st, ne, 1)))
    out.append(dict(name='acv-sb-default', fn=h_acv, params=dict(struct='sb', ne=1, order=1, p=0, solved=False), patch=prep('sb', 1, 1)))
    for st, ne in s2:
        out.append(dict(name=f'cov2-{st}-{ne}', fn=h_cov, params=dict(struct=st, ne=ne, order=2), patch=prep(st, ne, 2)))
        out.append(dict(name=f'derived2-{st}-{ne}', fn=h_derived, params=dict(struct=st, ne=ne, order=2), patch=prep(st, ne, 2)))
        out.append(dict(name=f'acv2-{st}-{ne}', fn=h_acv, params=dict(struct=st, ne=ne, order=2, p=2), patch=prep(st, ne, 2)))
        out.append(dict(name=f'mean2-{st}-{ne}', fn=h_mean2, params=dict(struct=st, ne=ne), patch=prep(st, ne, 2), weight=5))
    return out
