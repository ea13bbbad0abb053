"""C12: matrix helpers compute what they document."""
import itertools
from .common import *
import pynare.utils.numpy as unp

PROPERTY = 'C12'
BOUNDS = ('symbolic real entries; generalized_sylvester m,n<=3 (quick) / 4 (thorough), every pattern of 1x1 and 2x2 '
          'blocks of the second pencil, orthogonal factors from a fixed set of rational rotations; kron/product/shingle '
          'shapes up to 3 per dimension')
ASSUMPTIONS = ['scipy.linalg.qz returns a real generalised Schur form of its arguments (the pencils are built from their factors)',
               'scipy.linalg.solve returns the exact solution of a non-singular system']


def quasi(ctx, name, n, blocks):
    """quasi upper triangular matrix with the given block sizes, and upper triangular partner"""
    T = zeros(ctx, n, n)
    for i in range(n):
        for j in range(i, n):
            T[i, j] = ctx.real(f'{name}{i}{j}')
    k = 0
    for b in blocks:
        if b == 2:
            T[k+1, k] = ctx.real(f'{name}{k+1}{k}', nonzero=True)
        k += b
    return T


def upper(ctx, name, n):
    T = zeros(ctx, n, n)
    for i in range(n):
        for j in range(i, n):
            T[i, j] = ctx.real(f'{name}{i}{j}', pref=(3 if i == j else None))
    return T


def h_sylv(ctx, m, n, pb, tb, s):
    P, S = quasi(ctx, 'P', m, pb), upper(ctx, 'S', m)
    T, R = quasi(ctx, 'T', n, tb), upper(ctx, 'R', n)
    Q1, Z1, Q2, Z2 = carr(ctx, orth(m, s)), carr(ctx, orth(m, s+1)), carr(ctx, orth(n, s+2)), carr(ctx, orth(n, s+3))
    E = ctx.reals('E', (m, n))
    A, C = np.dot(np.dot(Q1, P), Z1.T), np.dot(np.dot(Q1, S), Z1.T)
    D, B = np.dot(np.dot(Q2, T), Z2.T), np.dot(np.dot(Q2, R), Z2.T)
    if ctx.sym:
        def qz(a, b, output='real', **k):
            for X, Y, f in ((A, C, (P, S, Q1, Z1)), (D, B, (T, R, Q2, Z2))):
                if is_same(a, X) and is_same(b, Y):
                    return tuple(x.copy() for x in f)
                # both triangular: the pencil may be given the other way round
                if is_same(a, Y) and is_same(b, X) and not any(f[0][i+1, i].num for i in range(len(f[0])-1)):
                    return f[1].copy(), f[0].copy(), f[2].copy(), f[3].copy()
                if is_same(a, X.T) and is_same(b, Y.T):
                    pass
            return None
        ctx.stubs['qz'] = qz
        ctx.stubs['solve'] = fresh_solve
    X = unp.generalized_sylvester(A, B, C, D, E)
    res = np.dot(np.dot(A, X), B.T) + np.dot(np.dot(C, X), D.T)
    ctx.eq(res, E, 'A X B\' + C X D\'')


def h_sylv_flat(ctx, m, n):
    """one row or one column: every matrix entry is free"""
    A, C = ctx.reals('A', (m, m)), ctx.reals('C', (m, m))
    B, D = ctx.reals('B', (n, n)), ctx.reals('D', (n, n))
    E = ctx.reals('E', (m, n))
    if ctx.sym:
        ctx.stubs['solve'] = fresh_solve
    X = unp.generalized_sylvester(A, B, C, D, E)
    ctx.eq(np.dot(np.dot(A, X), B.T) + np.dot(np.dot(C, X), D.T), E, 'A X B\' + C X D\'')


def h_kron(ctx, two):
    m = ctx.choice('m', [1, 2, 3]); p = ctx.choice('p', [1, 2]); q = ctx.choice('q', [1, 2, 3])
    r, c = ctx.choice('r', [1, 2]), ctx.choice('c', [1, 2])
    B = ctx.reals('B', (p, q))
    C = ctx.reals('C', (r, c)) if two else B
    if not two:
        r, c = p, q
    A = ctx.reals('A', (m, p*r))
    got = unp.matrix_kronecker_product(A, B, C) if two else unp.matrix_kronecker_product(A, B)
    K = zeros(ctx, p*r, q*c)
    for i in range(p):
        for j in range(q):
            for k in range(r):
                for l in range(c):
                    K[i*r+k, j*c+l] = B[i, j]*C[k, l]
    want = zeros(ctx, m, q*c)
    for i in range(m):
        for j in range(q*c):
            want[i, j] = sum((A[i, k]*K[k, j] for k in range(p*r)), 0*A[0, 0])
    ctx.eq(got, want, 'A kron(B, C)')


def h_shingle(ctx, cols):
    n0, n1 = ctx.choice('n0', [1, 2, 3]), ctx.choice('n1', [1, 2, 3])
    ov = ctx.choice('ov', list(range(0, min(n0, n1)+1)))
    tail = () if cols is None else (cols,)
    a, b = ctx.reals('a', (n0,)+tail), ctx.reals('b', (n1,)+tail)
    a0, b0 = a.copy(), b.copy()
    got = unp.array_shingle(a, b, ov)
    ctx.eq(got, mat(ctx, np.concatenate((np.asarray(a0), np.asarray(b0)[ov:]))), 'rows')
    ctx.eq(a, a0, 'first argument unchanged')
    ctx.eq(b, b0, 'second argument unchanged')


def h_matmul(ctx):
    p, q, r = (ctx.choice(v, [1, 2, 3]) for v in 'pqr')
    A, B = ctx.reals('A', (p, q)), ctx.reals('B', (q, r))
    want = zeros(ctx, p, r)
    for i in range(p):
        for j in range(r):
            want[i, j] = sum((A[i, k]*B[k, j] for k in range(q)), 0*A[0, 0])
    got = unp.matmul_scalar(A, B)
    ctx.eq(np.asarray(got, dtype=object).reshape(-1), np.asarray(want).reshape(-1), 'product')
    # vectors
    v = ctx.reals('v', (q,))
    want = [sum((A[i, k]*v[k] for k in range(q)), 0*v[0]) for i in range(p)]
    got = unp.matmul_scalar(A, v)
    ctx.eq(np.asarray(got, dtype=object).reshape(-1), np.asarray(want, dtype=object), 'matrix times vector')


def h_matmul_scalar(ctx):
    p, q = ctx.choice('p', [1, 2, 3]), ctx.choice('q', [1, 2])
    A = ctx.reals('A', (p, q))
    s = ctx.real('s')
    kind = ctx.choice('kind', ['0d', '1x1', 'python'])
    sv = s if kind == 'python' else (np.array(s, dtype=object if ctx.sym else float) if kind == '0d'
                                     else np.array([[s]], dtype=object if ctx.sym else float))
    want = np.asarray([[A[i, j]*s for j in range(q)] for i in range(p)], dtype=object)
    for got, lab in ((unp.matmul_scalar(sv, A), 'scalar first'), (unp.matmul_scalar(A, sv), 'scalar second')):
        ctx.eq(np.asarray(got, dtype=object).reshape(-1), want.reshape(-1), lab)


def h_ensure(ctx):
    orient = ctx.choice('orient', ['column', 'row'])
    nd = ctx.choice('nd', [0, 1, 2])
    n = ctx.choice('n', [1, 2, 3])
    seq = ctx.choice('seq', ['array', 'list', 'tuple'])
    dt = object if ctx.sym else float
    if nd == 0:
        s = ctx.real('s')
        a, want = (s, [[s]])
        if seq == 'array':
            a = np.array(s, dtype=dt)
    elif nd == 1:
        a = ctx.reals('a', (n,))
        want = [[x] for x in a] if orient == 'column' else [list(a)]
    else:
        a = ctx.reals('a', (n, 2))
        want = [list(r) for r in a]
    got = unp.ensure_2darray(a, orient=orient) if seq == 'array' else unp.ensure_2darray([a, a] if seq == 'list' else (a, a), orient=orient)
    if seq != 'array':
        ctx.same(type(got).__name__, seq, 'sequence type')
        ctx.same(len(got), 2, 'sequence length')
        ctx.eq(got[0], np.array(want, dtype=object), 'first element')
        got = got[1]
    ctx.eq(got, np.array(want, dtype=object), 'two-dimensional entries')


def h_concat(ctx):
    orient = ctx.choice('orient', ['column', 'row'])
    k = ctx.choice('k', [1, 2, 3])
    n = ctx.choice('n', [1, 2, 3])
    parts, want = [], []
    for t in range(k):
        nd = ctx.choice(f'nd{t}', [1, 2])
        if nd == 1:
            v = ctx.reals(f'v{t}', (n,))
            parts.append(v)
            want.append(np.asarray(v).reshape(-1, 1) if orient == 'column' else np.asarray(v).reshape(1, -1))
        else:
            v = ctx.reals(f'v{t}', (n, 2) if orient == 'column' else (2, n))
            parts.append(v)
            want.append(np.asarray(v))
    ax = 1 if orient == 'column' else 0
    got = unp.concatenate_maybe_1d(parts, orient=orient, axis=ax)
    ctx.eq(got, np.concatenate(want, axis=ax).squeeze(), 'concatenation')


def h_eigsort(ctx, n):
    order = ctx.choice('order', ['descending', 'ascending'])
    k = ctx.choice('k', [None, 1, n])
    A = zeros(ctx, n, n)
    ev = [ctx.real(f'e{i}') for i in range(n)]
    for i in range(n):
        A[i, i] = ev[i]
    if ctx.sym:
        ctx.stubs['eigvals'] = lambda a: np.array(ev, dtype=object).view(shim.SArr)
    got = unp.eigvals_sorted(A, order, k)
    ctx.same(len(got), n if k is None else k, 'number of eigenvalues')
    for a, b in zip(got, got[1:]):
        ctx.true((a*a >= b*b) if order == 'descending' else (a*a <= b*b), 'sorted by modulus')
    if k != 1:
        ctx.eq(sum(got[1:], got[0]), sum(ev[1:], ev[0]), 'same eigenvalues (sum)')
        ctx.eq(sum(x*x*x for x in got), sum(x*x*x for x in ev), 'same eigenvalues (sum of cubes)')
    else:
        for e in ev:
            ctx.true((got[0]*got[0] >= e*e) if order == 'descending' else (got[0]*got[0] <= e*e), 'extreme eigenvalue')


def h_first(ctx, n):
    v = np.array([bool(ctx.flag(f'b{i}')) for i in range(n)], dtype=bool)
    want = next((i for i in range(n) if v[i]), -1)
    ctx.same(int(unp.find_first(v)), want, 'first true position')
    U = ctx.reals('U', (n, n))
    u0 = np.array(U, dtype=object)
    unp.upper_triangular_to_symmetric(U)
    ctx.eq(U, np.array([[u0[min(i, j), max(i, j)] for j in range(n)] for i in range(n)], dtype=object), 'upper triangle mirrored')


def h_inv(ctx, n):
    """inverse of a symmetric positive definite matrix"""
    L = zeros(ctx, n, n)
    for i in range(n):
        for j in range(i):
            L[i, j] = ctx.real(f'l{i}{j}', lo=-2, hi=2)
        L[i, i] = ctx.real(f'l{i}{i}', lo=Q(1, 4), hi=2)
    A = np.dot(L, L.T)
    a0 = np.array(A, copy=True)
    X = unp.inv_sym_pd(A)
    ctx.eq(np.dot(a0, X), eye(ctx, n), 'A times its inverse')
    ctx.eq(A, a0, 'argument left alone')


def blocks(n):
    if n == 0:
        return [[]]
    out = [[1] + r for r in blocks(n-1)]
    if n >= 2:
        out += [[2] + r for r in blocks(n-2)]
    return out


def cases(tier):
    N = 3 if tier == 'quick' else 4
    P = patch_all()
    out = []
    for m in range(2, N+1):
        for n in range(2, N+1):
            for pb in ([[1]*m, blocks(m)[-1]] if tier == 'quick' else blocks(m)):
                for tb in blocks(n):
                    out.append(dict(name=f'sylvester-{m}x{n}-{"".join(map(str, pb))}-{"".join(map(str, tb))}', fn=h_sylv,
                                    params=dict(m=m, n=n, pb=pb, tb=tb, s=(m+n+len(tb))), patch=P, weight=m*m*n*n, opts=dict(tol=1e-5)))
    if tier == 'quick':
        # two complex pairs in a row
        for m, n, pb, tb in ((2, 4, [1, 1], [2, 2]), (4, 2, [2, 2], [1, 1]), (2, 4, [2], [1, 2, 1])):
            out.append(dict(name=f'sylvester-{m}x{n}-{"".join(map(str, pb))}-{"".join(map(str, tb))}', fn=h_sylv,
                            params=dict(m=m, n=n, pb=pb, tb=tb, s=(m+n+len(tb))), patch=P, weight=m*m*n*n, opts=dict(tol=1e-5)))
    for n in range(1, N+1):
        out.append(dict(name=f'sylvester-row-{n}', fn=h_sylv_flat, params=dict(m=1, n=n), patch=P))
        if n > 1:
            out.append(dict(name=f'sylvester-col-{n}', fn=h_sylv_flat, params=dict(m=n, n=1), patch=P))
    out += [
        dict(name='kron-two', fn=h_kron, params=dict(two=True), patch=P),
        dict(name='kron-one', fn=h_kron, params=dict(two=False), patch=P),
        dict(name='shingle-1d', fn=h_shingle, params=dict(cols=None), patch=P),
        dict(name='shingle-2d', fn=h_shingle, params=dict(cols=2), patch=P),
        dict(name='shingle-col', fn=h_shingle, params=dict(cols=1), patch=P),
        dict(name='matmul', fn=h_matmul, patch=P),
        dict(name='matmul-scalar', fn=h_matmul_scalar, patch=P),
        dict(name='ensure2d', fn=h_ensure, patch=P),
        dict(name='concat', fn=h_concat, patch=P),
        dict(name='eigsort', fn=h_eigsort, params=dict(n=3), patch=P),
        *[dict(name=f'inverse-{n}', fn=h_inv, params=dict(n=n), patch=P) for n in (1, 2, 3)],
        dict(name='find-first', fn=h_first, params=dict(n=3), patch=P),
    ]
    return out
