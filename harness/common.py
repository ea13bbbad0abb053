"""pieces shared by the harnesses"""
import itertools, math
from fractions import Fraction
import numpy as np
from symx import alg, shim
from symx.alg import Sym, SymBool, SymEscape
from symx.engine import Infeasible


def patch_all(only=None, extra=None, builtins_=('isinstance',), skip=(), stubs=None):
    def p(ctx):
        ctx.stubs = dict(stubs or {})
        ex = extra(ctx) if callable(extra) else extra
        return shim.install(only, ex, builtins_, skip)
    return p


def fresh_solve(a, b):
    """contract of a linear solve: a fresh X with a X = b"""
    if not (shim.is_symbolic(a) or shim.is_symbolic(b)):
        return None
    a, b = shim.lift(a), shim.lift(b)
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    if b.shape[0] != a.shape[0]:
        raise ValueError('solve: mismatch in core dimension')
    X = alg.CTX.fresh_array('solve', b.shape)
    alg.CTX.premise_eq(np.dot(a, X), b)
    alg.CTX.notes.append('solve(a, b): fresh X with a X = b')
    return X


def smart_solve(a, b):
    """exact when every pivot is certain (constant), else the contract"""
    if not (shim.is_symbolic(a) or shim.is_symbolic(b)):
        return None
    return None


def Q(x, d=1):
    return Fraction(x, d)


def const(ctx, x):
    """an exact constant in either mode"""
    return Sym.const(Fraction(x)) if ctx.sym else float(Fraction(x))


def carr(ctx, rows):
    """array of exact constants"""
    a = np.array([[Fraction(x) for x in r] for r in rows], dtype=object)
    if ctx.sym:
        return shim.lift(a)
    return a.astype(float)


def zeros(ctx, *shape):
    if ctx.sym:
        return shim.f_zeros(shape)
    return np.zeros(shape)


def eye(ctx, n):
    return shim.lift(np.eye(n)) if ctx.sym else np.eye(n)


def mat(ctx, x):
    return shim.lift(x) if ctx.sym else np.asarray(x, dtype=float)


ROT2 = {
    'id': [[1, 0], [0, 1]],
    'rot': [[Q(3, 5), Q(-4, 5)], [Q(4, 5), Q(3, 5)]],
    'ref': [[Q(5, 13), Q(12, 13)], [Q(12, 13), Q(-5, 13)]],
}


def orth(n, seed=0):
    """a rational orthogonal matrix without zero pattern (product of Givens rotations)"""
    trip = [(3, 4, 5), (5, 12, 13), (8, 15, 17), (7, 24, 25), (20, 21, 29)]
    M = [[Fraction(int(i == j)) for j in range(n)] for i in range(n)]
    t = seed
    for i in range(n):
        for j in range(i+1, n):
            a, b, c = trip[t % len(trip)]
            t += 1
            co, si = Fraction(a, c), Fraction(b, c)
            for r in range(n):
                x, y = M[r][i], M[r][j]
                M[r][i], M[r][j] = co*x - si*y, si*x + co*y
    if seed % 2:
        M = [[-x for x in r] for r in M]
    return M


def is_same(a, b):
    """syntactic equality of two arrays of symbolic/concrete numbers"""
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    if a.shape != b.shape:
        return False
    for x, y in zip(a.ravel(), b.ravel()):
        d = alg._coerce(x) - alg._coerce(y)
        if isinstance(d, float) or d.num:
            return False
    return True


def replace_fn(fn, new):
    """every reference a pynare module holds to the function"""
    out = []
    for m in shim.pynare_modules():
        for k, v in m.__dict__.items():
            if v is fn:
                out.append((m.__dict__, k, new))
    return out
