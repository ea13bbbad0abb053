"""C11: the second-order solution solves the second-order expansion of the model."""
import numpy as np
from .common import *
from .models import *
from pynare.core.solve.second_order import SecondOrderSolution
import pynare.utils.numpy as unp

PROPERTY = 'C11'

BOUNDS = ('symbolic Jacobian, symmetric Hessian, first-order policy arrays and shock covariance; every structure listed, up to 4 (thorough 5) '
          'endogenous variables, 3 states, 3 shocks, with and without static, purely forward-looking and mixed variables and variables that do '
          'not appear at time t')
ASSUMPTIONS = ['generalized_sylvester returns an X with A X B\' + C X D\' = E (checked by C12), unique',
               'scipy.linalg.solve returns the exact solution of a non-singular system',
               'the Hessian is symmetric (C06)']


def setup(ctx, struct, ne):
    m = base(struct, ne)
    n, S = len(struct), states(struct)
    ns, dr = len(S), dr_order(struct)
    llx = np.array(m.indexes.llx)
    N = int(np.nanmax(llx))+1+ne
    J = zeros(ctx, n, N)
    H = zeros(ctx, n, N*N)
    own = {}
    for v in range(n):
        for t in (1, 2, 0):
            if not np.isnan(llx[t, v]):
                own.setdefault(v, int(llx[t, v]))
    for e in range(n):
        for c in range(N):
            J[e, c] = ctx.real(f'j{e}_{c}', pref=Q(2) if own.get(e) == c else Q((3*e+5*c) % 7-3, 16))
            for d in range(c, N):
                h = ctx.real(f'h{e}_{c}_{d}', pref=Q((e+3*c+2*d) % 5-2, 4))
                H[e, c*N+d] = h
                H[e, d*N+c] = h
    gy, gu = zeros(ctx, n, ns), zeros(ctx, n, ne)
    for p in range(n):
        for j in range(ns):
            gy[p, j] = ctx.real(f'gy{p}{j}', pref=Q((2*p+3*j) % 5-2, 8))
        for j in range(ne):
            gu[p, j] = ctx.real(f'gu{p}{j}', pref=Q((p+2*j) % 3-1, 2))
    sig = zeros(ctx, ne, ne)
    for i in range(ne):
        for j in range(i+1):
            sig[i, j] = ctx.real(f's{i}{j}', pref=Q(1) if i == j else Q(1, 4))
            sig[j, i] = sig[i, j]
    sh = shapes(struct, ne, 1)
    M = hmodel(m, jac=J, hess=H, sigma=sig, ss=ctx.reals('ss', (n,)), first=(gy.reshape(sh['gy']), gu.reshape(sh['gu'])))
    GY, GU = zeros(ctx, n, ns), zeros(ctx, n, ne)
    for p, v in enumerate(dr):
        GY[v], GU[v] = gy[p], gu[p]
    return M, J, H.reshape(n, N, N), GY, GU, sig, llx, N


def sylv(ctx):
    def g(A, B, C, D, E):
        A, B, C, D, E = [shim.lift(x) for x in (A, B, C, D, E)]
        m, n = A.shape[0], B.shape[0]
        if A.shape != (m, m) or C.shape != (m, m) or B.shape != (n, n) or D.shape != (n, n) or E.shape != (m, n):
            raise ValueError('shapes of the generalized sylvester equation')
        X = ctx.fresh_array('X', (m, n))
        # a unique solution inherits the symmetry of the equation under exchanging the two factors
        r = int(round(n**.5))
        sw = [j*r+i for i in range(r) for j in range(r)]
        if r*r == n and is_same(E[:, sw], E) and is_same(D[sw][:, sw], D) and is_same(B[sw][:, sw], B):
            for i in range(r):
                for j in range(i):
                    X[:, i*r+j] = X[:, j*r+i]
        ctx.premise_eq(np.dot(np.dot(A, X), B.T) + np.dot(np.dot(C, X), D.T), E)
        return X
    return g


def h_second(ctx, struct, ne):
    M, J, H, GY, GU, sig, llx, N = setup(ctx, struct, ne)
    n, S, dr = len(struct), states(struct), dr_order(struct)
    ns = len(S)
    sol = SecondOrderSolution(M).solve()
    want = dict(ghxx=(n, ns*ns), ghxu=(n, ns*ne), ghuu=(n, ne*ne), del2=(n,))
    got = {}
    for a, sh in want.items():
        x = getattr(sol, a)
        ctx.same(np.size(x), int(np.prod(sh)), 'size of '+a)
        x = np.reshape(np.asarray(x), sh)
        y = zeros(ctx, *sh)
        for p, v in enumerate(dr):
            y[v] = x[p]
        got[a] = y
    xx, xu, uu, d2 = got['ghxx'], got['ghxu'], got['ghuu'], got['del2']
    xx, xu, uu = xx.reshape(n, ns, ns), xu.reshape(n, ns, ne), uu.reshape(n, ne, ne)
    # expansion in w = (states, shocks): linear part L, quadratic part Q, constant C of every argument
    k = ns+ne
    A0, Q0 = zeros(ctx, n, k), zeros(ctx, n, k, k)
    A0[:, :ns], A0[:, ns:] = GY, GU
    Q0[:, :ns, :ns], Q0[:, :ns, ns:], Q0[:, ns:, ns:] = xx, xu, uu
    Xs, Qs, ds = A0[S], Q0[S], d2[S]
    A1 = np.dot(GY, Xs)
    zero = zeros(ctx, 1)[0]
    Q1, C1 = zeros(ctx, n, k, k), zeros(ctx, n)
    fw = [v for v in range(n) if not np.isnan(llx[2, v])]
    for v in fw:
        for a in range(k):
            for b in range(k):
                t = zero
                for i in range(ns):
                    t = t + GY[v, i]*Qs[i, a, b]
                    for j in range(ns):
                        t = t + xx[v, i, j]*Xs[i, a]*Xs[j, b]
                Q1[v, a, b] = t
        t = d2[v]
        for i in range(ns):
            t = t + GY[v, i]*ds[i]
        for i in range(ne):
            for j in range(ne):
                t = t + uu[v, i, j]*sig[i, j]
        C1[v] = t
    L, Lp = zeros(ctx, N, k), zeros(ctx, N, ne)
    Qc, C = {}, {}
    for v in range(n):
        if not np.isnan(llx[0, v]):
            L[int(llx[0, v]), S.index(v)] = const(ctx, 1)
        if not np.isnan(llx[1, v]):
            c = int(llx[1, v]); L[c], Qc[c], C[c] = A0[v], Q0[v], d2[v]
        if not np.isnan(llx[2, v]):
            c = int(llx[2, v]); L[c], Lp[c], Qc[c], C[c] = A1[v], GU[v], Q1[v], C1[v]
    for j in range(ne):
        L[N-ne+j, ns+j] = const(ctx, 1)
    for e in range(n):
        HL = np.dot(H[e], L)
        for a in range(k):
            for b in range(a, k):
                r = zero
                for c in Qc:
                    r = r + J[e, c]*(Qc[c][a, b] + (Qc[c][b, a] if a != b else zero))
                q = zero
                for c in range(N):
                    q = q + L[c, a]*HL[c, b]
                r = r + (q if a != b else q/2)
                nm = lambda i: f'state {i}' if i < ns else f'shock {i-ns}'
                ctx.eq(r, 0*r, f'equation {e}, {nm(a)} x {nm(b)}')
        r = zero
        for c in C:
            r = r + J[e, c]*C[c]
        HLp = np.dot(H[e], Lp)
        for i in range(ne):
            for j in range(ne):
                q = zero
                for c in range(N):
                    q = q + Lp[c, i]*HLp[c, j]
                r = r + q*sig[i, j]/2
        ctx.eq(r, 0*r, f'equation {e}, constant')


def prep(st, ne):
    def extra(ctx):
        return replace_fn(unp.generalized_sylvester, sylv(ctx))
    p = patch_all(stubs={'solve': fresh_solve}, extra=extra)
    def go(ctx):
        base(st, ne)
        shapes(st, ne, 1)
        return p(ctx)
    return go


def cases(tier):
    out = []
    L = [('b', 1), ('b', 2), ('m', 1), ('fb', 1), ('sb', 1), ('fm', 1), ('bb', 1), ('mb', 1), ('M', 1), ('Mb', 1), ('mb', 2), ('fsb', 1), ('bfs', 2), ('sfm', 1), ('bms', 1), ('fbb', 1), ('mfb', 1),
         ('bF', 1), ('mmb', 1), ('fbfs', 1), ('fsb', 2), ('BbF', 1), ('sbsm', 1), ('bsbf', 1), ('fmbs', 1),
         ('bbb', 1), ('mb', 3), ('bb', 3), ('fFb', 2), ('bbs', 2), ('mmf', 1), ('FMb', 1)]
    if tier != 'quick':
        L += [('fbms', 2), ('mbfs', 2), ('bbbf', 1), ('mmbf', 1), ('sfbmb', 1), ('ffbbs', 2), ('mmm', 2), ('bBFs', 2), ('bbbb', 1)]
    for st, ne in L:
        out.append(dict(name=f'second-{st}-{ne}', fn=h_second, params=dict(struct=st, ne=ne), patch=prep(st, ne), weight=len(st)**3*ne, opts=dict(cex_tries=8, tol=1e-6)))
    return out
