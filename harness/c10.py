"""C10: the first-order solution solves the linearised model."""
import numpy as np
import scipy.linalg
import pynare.utils.numpy as unp
from .common import *
from .models import *
from pynare.core.solve.statespace import StateSpace
from pynare.core.solve.first_order import FirstOrderSolution
from pynare.errors import ModelIdentificationError

PROPERTY = 'C10'
BOUNDS = ('symbolic Jacobian of up to 4 (thorough 5) equations, 2 states, 2 forward-looking, 2 static variables, 2 shocks, every mix of '
          'static, backward, mixed and forward-looking variables listed; symbolic transition of the states and response of the '
          'forward-looking variables (the lagged coefficients are solved for), symbolic eigenvalue moduli; rotations of the static '
          'columns and inside the QZ blocks from a fixed set')
ASSUMPTIONS = ['numpy.linalg.qr returns Q, R with Q orthogonal, Q R = its argument and R upper triangular',
               'scipy.linalg.ordqz(E, D, sort="iuc") returns factors E = Q S Z\', D = Q T Z\' whose leading columns of Z span the deflating '
               'subspace of the eigenvalues inside the unit circle; every triangular T_11 is allowed',
               'numpy.linalg.solve returns the solution of a non-singular system; no eigenvalue has modulus exactly one']


def inv(ctx, a):
    if a.shape[0] == 0:
        return a
    return shim.f_inv(a) if ctx.sym else np.linalg.inv(np.asarray(a, float))


def build(ctx, struct, ne, symB, seed):
    """symbolic Jacobian of a model whose solution is known by construction"""
    n = len(struct)
    low = struct.lower()
    dr, st = dr_order(struct), states(struct)
    S = [i for i in dr if low[i] == 's']
    B = [i for i in dr if low[i] in 'bm']
    F = [i for i in dr if low[i] in 'mf']
    nm_ = low.count('m')
    ns, nb, nf = len(S), len(B), len(F)
    D = [i for i in dr if low[i] != 's']
    nd = len(D)
    # forward response gyp = 2 W (I - W'W)^-1 and the rotation that goes with it
    W = zeros(ctx, nf, nb)
    for i in range(nf):
        for j in range(nb):
            W[i, j] = ctx.real(f'w{i}{j}', pref=Q(1+(2*i+j+seed) % 3, 12), lo=-Q(2, 5), hi=Q(2, 5)) if symB else \
                const(ctx, Q([1, -1, 2, 1, -2][(2*i+3*j+seed) % 5], 10))
    WtW, WWt = np.dot(W.T, W), np.dot(W, W.T)
    Ib, If = eye(ctx, nb), eye(ctx, nf)
    X1 = np.dot(Ib - WtW, inv(ctx, Ib + WtW))
    X2 = 2*np.dot(W, inv(ctx, Ib + WtW))
    Y1 = -2*np.dot(W.T, inv(ctx, If + WWt))
    Y2 = np.dot(If - WWt, inv(ctx, If + WWt))
    R1, R2 = carr(ctx, orth(nb, seed)) if nb else Ib, carr(ctx, orth(nf, seed+1)) if nf else If
    if nb and nf:
        Zt = np.block([[np.asarray(np.dot(X1, R1)), np.asarray(np.dot(Y1, R2))], [np.asarray(np.dot(X2, R1)), np.asarray(np.dot(Y2, R2))]])
        Zt = mat(ctx, Zt)
        gyp = 2*np.dot(W, inv(ctx, Ib - WtW))
    else:
        Zt = R1 if nb else R2
        gyp = zeros(ctx, nf, nb)
    # transition of the states; the mixed variables come last in one list and first in the other
    gym = zeros(ctx, nb, nb)
    for i in range(nb):
        for j in range(nb):
            if i < nb-nm_:
                gym[i, j] = ctx.real(f'g{i}{j}', pref=Q(3-2*abs(i-j)-j, 8))
            else:
                gym[i, j] = gyp[i-(nb-nm_), j]
    gyd = zeros(ctx, nd, nb)
    for i in range(nb):
        gyd[i] = gym[i]
    for i in range(nb, nd):
        gyd[i] = gyp[i-nd+nf]
    # rotated Jacobian: static columns are [R; 0]
    Ap = zeros(ctx, n, nf)
    A0 = zeros(ctx, n, nd)
    As = zeros(ctx, n, ns)
    Am = zeros(ctx, n, nb)
    Au = zeros(ctx, n, ne)
    for e in range(n):
        for j in range(nf):
            v = F[j]
            d = e-ns == D.index(v)
            Ap[e, j] = ctx.real(f'p{e}{j}', pref=Q(1, 4) if d and not struct[v].isupper() else Q(1, 1) if d else Q(1, 16))
        for j in range(nd):
            if struct[D[j]].islower():
                A0[e, j] = ctx.real(f'c{e}{j}', pref=1 if e-ns == j else Q(1, 8))
        for j in range(ne):
            Au[e, j] = ctx.real(f'u{e}{j}')
        for j in range(ns):
            if e <= j:
                As[e, j] = ctx.real(f'r{e}{j}', nonzero=e == j, pref=1 if e == j else Q(1, 8))
        if e < ns:
            for j in range(nb):
                Am[e, j] = ctx.real(f'm{e}{j}')
    imp = np.dot(np.dot(Ap, gyp), gym) + np.dot(A0, gyd)
    for e in range(ns, n):
        for j in range(nb):
            Am[e, j] = -imp[e, j]
    # which column is whose
    llx = np.array(base(struct, ne).indexes.llx)
    N = int(np.nanmax(llx))+1 + ne
    A = zeros(ctx, n, N)
    for j, v in enumerate(S):
        A[:, int(llx[1, v])] = As[:, j]
    for j, v in enumerate(D):
        if struct[v].islower():
            A[:, int(llx[1, v])] = A0[:, j]
    for j, v in enumerate(F):
        A[:, int(llx[2, v])] = Ap[:, j]
    for j, v in enumerate(B):
        A[:, int(llx[0, v])] = Am[:, j]
    for j in range(ne):
        A[:, N-ne+j] = Au[:, j]
    Qs = carr(ctx, orth(n, seed+2)) if ns else eye(ctx, n)
    J = np.dot(Qs, A)
    return dict(J=J, A=A, Qs=Qs, As=As, S=S, B=B, F=F, D=D, Zt=Zt, gym=gym, gyp=gyp, llx=llx, nm=nm_, nb=nb, nf=nf, ns=ns, N=N)


def stubs(ctx, d, J, ne, moduli=None):
    """QR and ordered QZ of the constructed system, and the linear solve for the shock response"""
    nb, nf = d['nb'], d['nf']
    k = nb+nf
    scols = J[:, [int(d['llx'][1, v]) for v in d['S']]]
    full = np.dot(d['Qs'], d['As'])

    def qr(a, mode='reduced', **kw):
        if mode != 'complete' or not is_same(a, full):
            return None
        return d['Qs'].copy(), d['As'].copy()

    def rank(a):
        if is_same(a, d['As']):
            return d['ns']
        if a.shape == (nf, nf):
            return nf
        raise SymEscape('rank')
    eig = []
    for i in range(k):
        if i == k-1 and nf and moduli == 'inf':
            x = ctx.fresh('alphainf')
            ctx.premise(x*x > 0)
            eig.append((x, const(ctx, 0)))
            continue
        # alpha = r beta, beta of either sign
        b, r = ctx.fresh(f'beta{i}'), ctx.fresh(f'lambda{i}')
        ctx.premise(b*b > 0)
        if i < nb:
            ctx.premise((r < 1) & (-1 < r))
        else:
            ctx.premise((r > 1) | (r < -1))
        eig.append((r*b, b))
    if k == 1 and eig[0][1].is_const() is False:
        # the only eigenvalue is the transition, or the ratio of the two coefficients
        r = eig[0][0]/eig[0][1]
        if nb:
            ctx.premise_eq(r, d['gym'][0, 0])
        else:
            f, ns = d['F'][0], d['ns']
            a0 = d['A'][ns, int(d['llx'][1, f])] if not np.isnan(d['llx'][1, f]) else const(ctx, 0)
            ctx.premise_eq(r*d['A'][ns, int(d['llx'][2, f])], -a0)
    T = zeros(ctx, k, k)
    for i in range(k):
        for j in range(i, k):
            T[i, j] = ctx.fresh(f'T{i}{j}')
    for i in range(nb):
        ctx.premise(SymBool('not', SymBool('eq', T[i, i])))
    Z11, Zl = d['Zt'][:nb, :nb], d['Zt'][:, :nb]

    def ordqz(a, b, sort='lhp', output='real', **kw):
        # a = E, b = D: the leading columns of Z deflate the pencil, with transition gym
        a, b = shim.lift(a), shim.lift(b)
        if a.shape != (k, k) or b.shape != (k, k):
            raise ValueError('array dims must be the same')
        if sort != 'iuc':
            return None
        M = np.dot(np.dot(inv(ctx, Z11), d['gym']), Z11)
        if nb and not is_same(np.dot(a, Zl), np.dot(np.dot(b, Zl), M)):
            return None
        Sx = zeros(ctx, k, k)
        for i in range(k):
            for j in range(nb, k):
                Sx[i, j] = ctx.fresh(f'S{i}{j}')
        if nb:
            Sx[:nb, :nb] = np.dot(T[:nb, :nb], M)
        al, be = np.empty(k, dtype=object), np.empty(k, dtype=object)
        for i, (x, y) in enumerate(eig):
            al[i], be[i] = x, y
        Qf = ctx.fresh_array('Q', (k, k))
        return Sx, T.copy(), shim.lift(al), shim.lift(be), Qf, d['Zt'].copy()

    jac = set()
    for x in J.ravel():
        jac |= set(x.vars())

    def solve(a, b):
        if a.shape[0] == len(J) and any(set(x.vars()) & jac for x in shim.lift(a).ravel()) and a.shape[0] > 1:
            return fresh_solve(a, b)
        return None
    ctx.stubs.update(qr=qr, ordqz=ordqz, matrix_rank=rank, solve=solve)


def feasible(d, J, ne):
    """concrete inputs: the constructed solution must be the stable one"""
    J = np.asarray(J, float)
    llx, nb, nf, nm_ = d['llx'], d['nb'], d['nf'], d['nm']
    ev = np.linalg.eigvals(np.asarray(d['gym'], float)) if nb else np.zeros(0)
    if nb and np.max(np.abs(ev)) > 0.998:
        raise Infeasible()
    A = np.asarray(d['A'], float)[d['ns']:]
    col = lambda t, v: A[:, int(llx[t, v])] if not np.isnan(llx[t, v]) else np.zeros(len(A))
    k = nb+nf
    if not k:
        return
    Dm, Em = np.zeros((k, k)), np.zeros((k, k))
    nd = len(A)
    for j, v in enumerate(d['B']):
        if j < nb-nm_:
            Dm[:nd, j] = col(1, v)
        Em[:nd, j] = -col(0, v)
    for j, v in enumerate(d['F']):
        Dm[:nd, nb+j] = col(2, v)
        Em[:nd, nb+j] = -col(1, v)
    for i in range(nm_):
        Dm[nd+i, nb-nm_+i] = 1
        Em[nd+i, nb+i] = 1
    w = scipy.linalg.eig(Em, Dm, homogeneous_eigvals=True)[0]
    ratio = np.abs(w[0]) / np.maximum(np.abs(w[1]), 1e-12)
    if np.any(np.abs(ratio-1) < 0.002) or np.sum(ratio < 1) != nb:
        raise Infeasible()
    if np.linalg.cond(J) > 1e6:
        raise Infeasible()


def model_for(ctx, struct, ne, d):
    return hmodel(base(struct, ne), jac=d['J'], ss=None, sigma=None)


def h_solve(ctx, struct, ne, symB, seed, moduli):
    d = build(ctx, struct, ne, symB, seed)
    J = d['J']
    if ctx.sym:
        stubs(ctx, d, J, ne, moduli)
    else:
        feasible(d, J, ne)
    M = model_for(ctx, struct, ne, d)
    M._statespace = StateSpace(M)
    M.statespace.verify()
    ctx.true(M.statespace.is_verified is True, 'verified')
    sol = FirstOrderSolution(M).solve()
    n, nb = len(struct), d['nb']
    ctx.same(np.size(sol.gy), n*nb, 'size of gy')
    ctx.same(np.size(sol.gu), n*ne, 'size of gu')
    gy = np.reshape(np.asarray(sol.gy), (n, nb))
    gu = np.reshape(np.asarray(sol.gu), (n, ne))
    dr = dr_order(struct)
    GY, GU = {}, {}
    for p, v in enumerate(dr):
        GY[v], GU[v] = gy[p], gu[p]
    # where the answer is known, use it: the same numbers in fewer symbols
    known = {}
    for i, v in enumerate(d['B']):
        known[v] = d['gym'][i]
    for i, v in enumerate(d['F']):
        known.setdefault(v, d['gyp'][i])
    for v in known:
        ctx.eq(GY[v], known[v], f'response of {v} to the states')
    if ctx.sym:
        GY.update(known)
    llx, low = d['llx'], struct.lower()
    for which, R, m in (('state', GY, nb), ('shock', GU, ne)):
        # one period ahead: responses of the states feed the forward-looking variables
        for j in range(m):
            for e in range(n):
                t = 0*const(ctx, 1)
                for v in range(n):
                    if not np.isnan(llx[1, v]):
                        t = t + J[e, int(llx[1, v])]*R[v][j]
                    if not np.isnan(llx[2, v]):
                        f = sum((GY[v][i]*R[s][j] for i, s in enumerate(d['B'])), 0*const(ctx, 1))
                        t = t + J[e, int(llx[2, v])]*f
                if which == 'state':
                    t = t + J[e, int(llx[0, d['B'][j]])]
                else:
                    t = t + J[e, d['N']-ne+j]
                ctx.eq(t, 0*t, f'equation {e}, {which} {j}')


def h_bk(ctx, struct, ne, extra):
    """the number of unstable eigenvalues decides verification"""
    n = len(struct)
    nb, nf = sum(c in 'bm' for c in struct), sum(c in 'mf' for c in struct)
    k = nb+nf
    m = base(struct, ne)
    J = m.jacobian.array
    M = hmodel(m, jac=J)
    sp = copy.copy(m._statespace)
    sp.model = M
    eig = np.empty(k, dtype=object if ctx.sym else complex)
    cnt = 0
    for i in range(k):
        kind = ctx.choice(f'k{i}', ['in', 'out', 'inf'] + (['cin', 'cout'] if k > 1 else []))
        if kind == 'inf':
            eig[i] = np.inf
        elif kind[0] == 'c':
            # complex eigenvalues: the modulus counts, not the parts
            eig[i] = 0.7+0.6j if kind == 'cin' else -0.8+0.8j
        else:
            x = ctx.real(f'e{i}', pref=Q(1, 2) if kind == 'in' else Q(-2))
            ctx.assume(abs(x) < 1 if kind == 'in' else abs(x) > 1)
            eig[i] = x
        cnt += 'in' != kind[-2:]
    sp.eigen = shim.lift(eig) if ctx.sym else eig
    sp.is_verified = None
    for time in ('first', 'second'):
        try:
            sp.verify()
            ok = True
        except ModelIdentificationError:
            ok = False
        ctx.same(ok, cnt == nf, f'{cnt} explosive eigenvalues, {nf} forward-looking variables: accepted the {time} time')
        ctx.same(sp.is_verified, cnt == nf, 'recorded')


def h_part(ctx, nb, nf, inf):
    """the decomposition is cut between the stable and the explosive eigenvalues"""
    k = nb+nf
    A, B = zeros(ctx, k, k), zeros(ctx, k, k)
    for i in range(k):
        b = ctx.real(f'b{i}', nonzero=True)
        r = ctx.real(f'r{i}', pref=Q(1, 2+i) if i < nb else Q(3+i, 2))
        ctx.assume(b*b > Q(1, 100))
        ctx.assume(abs(r) < 1 if i < nb else abs(r) > 1)
        ctx.assume(abs(r) < 4)
        A[i, i], B[i, i] = b, r*b
    if inf:
        A[k-1, k-1] = const(ctx, 0)
    if ctx.sym:
        def ordqz(b, a, sort='lhp', output='real', **kw):
            if not (is_same(a, A) and is_same(b, B)) or sort != 'iuc':
                return None
            dg = lambda x: shim.lift([x[i, i] for i in range(k)])
            return B.copy(), A.copy(), dg(B), dg(A), eye(ctx, k), eye(ctx, k)
        ctx.stubs.update(ordqz=ordqz)
    eigs, Z_11, Z_12, Z_21, Z_22, T_11, T_12, T_22, S_11, S_12, S_22 = unp.partitioned_qz(A, B)
    ctx.same(len(eigs), k, 'number of eigenvalues')
    for nm, x, sh in (('Z_11', Z_11, (nb, nb)), ('Z_12', Z_12, (nb, nf)), ('Z_21', Z_21, (nf, nb)), ('Z_22', Z_22, (nf, nf)), ('T_11', T_11, (nb, nb)),
                      ('T_22', T_22, (nf, nf)), ('S_11', S_11, (nb, nb)), ('S_22', S_22, (nf, nf)), ('T_12', T_12, (nb, nf)), ('S_12', S_12, (nb, nf))):
        ctx.same(tuple(x.shape), sh, 'shape of '+nm)
    # the eigenvalues of the blocks are those of the pencil (in the order of any valid decomposition)
    p, q = const(ctx, 1), const(ctx, 1)
    for i in range(nb):
        p, q = p*(S_11[i, i]*A[i, i]), q*(T_11[i, i]*B[i, i])
    ctx.eq(p, q, 'product of the eigenvalues of the stable block')


def prep(st, ne, order=1):
    p = patch_all()
    def go(ctx):
        base(st, ne)
        return p(ctx)
    return go


def cases(tier):
    out = []
    L = [('b', 1, 1), ('f', 1, 1), ('fb', 1, 1), ('bf', 2, 1), ('sb', 1, 1), ('m', 1, 1), ('M', 1, 1), ('sf', 1, 1), ('fbs', 2, 1), ('mb', 1, 0), ('mf', 1, 0), ('bb', 1, 1),
         ('fbb', 1, 0), ('ffb', 1, 0), ('smb', 1, 0), ('ssb', 1, 1), ('bm', 2, 0), ('Mb', 1, 0), ('sfb', 0, 1), ('ff', 1, 1), ('s', 1, 1), ('ss', 2, 1), ('fmsb', 1, 0)]
    if tier != 'quick':
        L += [('mm', 1, 0), ('fbsb', 1, 0), ('fsbs', 1, 0), ('fmb', 1, 0), ('ffbb', 1, 0), ('Mfs', 1, 0)]
    for st, ne, sb in L:
        for seed in ((0, 3) if tier == 'quick' else (0, 3, 7)):
            for mod in ('fin', 'inf') if seed == 0 else ('fin',):
                if mod == 'inf' and not any(c in 'mfM' for c in st):
                    continue
                out.append(dict(name=f'solve-{st}-{ne}-{seed}-{mod}', fn=h_solve, params=dict(struct=st, ne=ne, symB=bool(sb), seed=seed, moduli=mod),
                                patch=prep(st, ne), weight=len(st)**2, opts=dict(cex_tries=20)))
    for st in ('fb', 'm', 'b', 'f') + (('fbs', 'mf') if tier != 'quick' else ()):
        out.append(dict(name=f'verify-{st}', fn=h_bk, params=dict(struct=st, ne=1, extra=0), patch=prep(st, 1)))
    for nb, nf, inf in ((0, 1, False), (1, 0, False), (1, 1, False), (2, 1, False), (1, 2, True), (0, 2, True), (2, 0, False)) + (((3, 2, True), (2, 2, False)) if tier != 'quick' else ()):
        out.append(dict(name=f'partition-{nb}-{nf}' + ('-inf' if inf else ''), fn=h_part, params=dict(nb=nb, nf=nf, inf=inf), patch=patch_all()))
    return out
