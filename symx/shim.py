"""numpy / scipy / autograd stand-ins used while the real code runs on symbolic numbers.

Everything that is not handled here falls through to the real library.  The stand-ins for
numerical routines (linear solves, factorisations, matrix equations) are contracts: the
result is exact (solve, inv, det by rational elimination) or a fresh unknown constrained by
the defining equation, never a numerical approximation.
"""
import sys, math, operator, types, builtins
from fractions import Fraction
import numpy as np
import scipy, scipy.linalg
from . import alg
from .alg import Sym, SymBool, SymEscape


COMPARE = {np.less: operator.lt, np.less_equal: operator.le, np.greater: operator.gt, np.greater_equal: operator.ge, np.equal: operator.eq}


class SArr(np.ndarray):
    """object array of Syms; conversions to float are the identity"""
    def astype(self, dtype, *a, **k):
        if dtype in (float, np.float64, object, 'float', 'float64', complex) or _isfl(dtype):
            return self.copy()
        if dtype in (int, bool, np.int64, 'int', 'bool'):
            out = np.empty(self.shape, dtype=dtype)
            for i in np.ndindex(*self.shape):
                out[i] = int(self[i]) if dtype not in (bool, 'bool') else bool(self[i])
            return out
        return np.ndarray.astype(self, dtype, *a, **k)

    def __array_function__(self, func, types_, args, kwargs):
        h = HANDLED.get(func)
        if h is not None:
            return h(*args, **kwargs)
        mod = getattr(func, '__module__', '') or ''
        if mod.startswith('numpy.linalg') and hasattr(NP.linalg, func.__name__):
            return getattr(NP.linalg, func.__name__)(*args, **kwargs)
        return wrap(super().__array_function__(func, types_, args, kwargs))

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        if method == '__call__' and ufunc in UFUNC:
            return UFUNC[ufunc](*inputs)
        if method == '__call__' and out is None and ufunc in COMPARE and alg.CTX is not None and getattr(alg.CTX, 'opts', {}).get('lazy_compare'):
            # conditions instead of a decision on each
            ins = np.broadcast_arrays(*[np.asarray(x, dtype=object) for x in inputs])
            res = np.empty(ins[0].shape, dtype=object)
            for i in np.ndindex(*res.shape):
                res[i] = COMPARE[ufunc](ins[0][i], ins[1][i])
            return res.view(SArr)
        ins = [np.asarray(lift(x)) if isinstance(x, np.ndarray) else x for x in inputs]
        if out is not None:
            kw['out'] = tuple(np.asarray(o) if isinstance(o, SArr) else o for o in out)
        return wrap(getattr(ufunc, method)(*ins, **kw))

    # methods numpy implements in C for objects through `or`/`and`
    def any(self, axis=None, **k): return np.asarray(tobool(self)).any(axis=axis)
    def all(self, axis=None, **k): return np.asarray(tobool(self)).all(axis=axis)
    def mean(self, axis=None, **k): return f_mean(self, axis, **k)
    def var(self, axis=None, **k): return f_var(self, axis, **k)
    def std(self, axis=None, **k): return f_std(self, axis, **k)
    def round(self, *a, **k): return self
    def conj(self): return self
    def conjugate(self): return self
    @property
    def real(self): return self
    @property
    def imag(self): return np.zeros(self.shape)


def _isfl(d):
    return isinstance(d, type) and issubclass(d, float)


def tobool(a):
    a = np.asarray(a)
    if a.dtype == bool:
        return a
    out = np.empty(a.shape, dtype=bool)
    for i in np.ndindex(*a.shape):
        out[i] = bool(a[i])
    return out


def is_symbolic(x):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(is_symbolic(y) for y in x)
    return False


def wrap(r):
    if isinstance(r, np.ndarray):
        if r.dtype == object and type(r) in (np.ndarray, SArr):
            if r.size and not any(isinstance(e, (Sym, SymBool, float, int)) for e in r.ravel()[:1]):
                return r
            return r.view(SArr)
        return r
    if type(r) is tuple:
        return tuple(wrap(x) for x in r)
    if type(r) is list:
        return [wrap(x) for x in r]
    return r


def lift(a):
    """object array whose finite numbers are Syms"""
    a = np.asarray(a, dtype=object)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        e = a[i]
        if isinstance(e, (Sym, SymBool)) or (isinstance(e, complex) and e.imag != 0):
            out[i] = e
        else:
            c = alg._coerce(e) if not isinstance(e, (str, bool, np.bool_)) else NotImplemented
            out[i] = e if c is NotImplemented else c
    return out.view(SArr)


def lower(a):
    """float array when every entry is a constant, else None"""
    try:
        return np.asarray([[float(x)] for x in np.asarray(a, dtype=object).ravel()], dtype=float).reshape(np.shape(a))
    except SymEscape:
        return None


def deep_lift(x):
    if isinstance(x, (list, tuple)):
        return type(x)(deep_lift(y) for y in x)
    return x


ZERO = Sym.const(0)
ONE = Sym.const(1)


# ------------------------------------------------------------ array creation
def _isfloat(dtype):
    if dtype is None or dtype in (float, np.float64, 'float', 'float64', object, complex):
        return True
    return _isfl(dtype)


def _filled(shape, v):
    if isinstance(shape, (int, np.integer, Sym)):
        shape = (int(shape),)
    a = np.empty(tuple(int(s) for s in shape), dtype=object)
    a.fill(v)
    return a.view(SArr)


def f_zeros(shape, dtype=None, order='C', **k):
    return _filled(shape, ZERO) if _isfloat(dtype) else np.zeros(shape, dtype, **k)

def f_ones(shape, dtype=None, order='C', **k):
    return _filled(shape, ONE) if _isfloat(dtype) else np.ones(shape, dtype, **k)

def f_empty(shape, dtype=None, order='C', **k):
    return _filled(shape, ZERO) if _isfloat(dtype) else np.empty(shape, dtype, **k)

def f_full(shape, fill_value, dtype=None, **k):
    if dtype is not None and not _isfloat(dtype):
        return np.full(shape, fill_value, dtype)
    if isinstance(fill_value, float) and fill_value != fill_value:
        return _filled(shape, fill_value)
    c = alg._coerce(fill_value)
    if c is NotImplemented or isinstance(fill_value, (bool, int)) and dtype is None:
        return np.full(shape, fill_value, dtype)
    return _filled(shape, c)

def f_zeros_like(a, dtype=None, **k):
    a = np.asarray(a)
    if dtype is None and a.dtype not in (np.dtype(object), np.dtype(float)):
        return np.zeros_like(a)
    return f_zeros(a.shape, dtype)

def f_ones_like(a, dtype=None, **k):
    a = np.asarray(a)
    if dtype is None and a.dtype not in (np.dtype(object), np.dtype(float)):
        return np.ones_like(a)
    return f_ones(a.shape, dtype)

def f_empty_like(a, dtype=None, **k):
    return f_zeros_like(a, dtype)

def f_full_like(a, v, dtype=None, **k):
    return f_full(np.shape(a), v, dtype)

def f_eye(N, M=None, k=0, dtype=None, **kw):
    if not _isfloat(dtype):
        return np.eye(N, M, k, dtype)
    return lift(np.eye(N, M, k))

def f_identity(n, dtype=None, **k):
    return f_eye(n, dtype=dtype)

def f_tri(N, M=None, k=0, dtype=None, **kw):
    if not _isfloat(dtype):
        return np.tri(N, M, k, dtype)
    return lift(np.tri(N, M, k))

def f_array(obj, dtype=None, copy=True, **k):
    if dtype is not None and not _isfloat(dtype):
        return np.array(obj, dtype=dtype, **k)
    if is_symbolic(obj) or dtype is not None and dtype is not object:
        if dtype is not None and dtype is not object and isinstance(obj, (list, tuple)) and is_symbolic(obj):
            obj = [np.nan if e is None else e for e in obj]
        a = np.array(obj, dtype=object, **k) if is_symbolic(obj) else np.array(obj, dtype=float if dtype is not object else object, **k)
        if a.size and isinstance(a.ravel()[0], (str, np.str_)):
            return a
        if a.dtype == object and a.size and not all(isinstance(e, (Sym, SymBool, float, int, np.number)) for e in a.ravel()):
            return a
        return lift(a)
    return wrap(np.array(obj, dtype=dtype, **k))

def f_asarray(obj, dtype=None, **k):
    if isinstance(obj, np.ndarray) and (dtype is None or (obj.dtype == object and _isfloat(dtype))):
        return obj
    return f_array(obj, dtype)


# ------------------------------------------------------------- element tests
def _elem(f, out=bool):
    def g(x, *a, **k):
        if isinstance(x, np.ndarray) and x.dtype == object or isinstance(x, (list, tuple)) and is_symbolic(x):
            x = np.asarray(x, dtype=object)
            r = np.empty(x.shape, dtype=out)
            for i in np.ndindex(*x.shape):
                r[i] = f(x[i])
            return wrap(r)
        if isinstance(x, (Sym,)):
            return f(x)
        return None
    return g

def _is_nan(e): return isinstance(e, float) and e != e
def _is_inf(e): return isinstance(e, float) and e in (math.inf, -math.inf)

def _mk_test(f, real):
    g = _elem(f)
    def h(x, *a, **k):
        r = g(x)
        return real(x, *a, **k) if r is None else r
    return h

f_isnan = _mk_test(_is_nan, np.isnan)
f_isinf = _mk_test(_is_inf, np.isinf)
f_isfinite = _mk_test(lambda e: not _is_nan(e) and not _is_inf(e), np.isfinite)
f_isreal = _mk_test(lambda e: True, np.isreal)
f_iscomplex = _mk_test(lambda e: False, np.iscomplex)

def f_sign(x, *a, **k):
    def s(e):
        if isinstance(e, Sym):
            if bool(e > 0): return ONE
            if bool(e < 0): return -ONE
            return ZERO
        return np.sign(e)
    r = _elem(s, object)(x)
    return np.sign(x, *a, **k) if r is None else r

def f_where(cond, *xy):
    if isinstance(cond, SymBool):
        cond = bool(cond)
    cond = np.asarray(cond)
    if cond.dtype == object:
        cond = tobool(cond)
    if not xy:
        return np.where(cond)
    x, y = xy
    if is_symbolic(x) or is_symbolic(y):
        return lift(np.where(cond, np.asarray(x, dtype=object), np.asarray(y, dtype=object)))
    return np.where(cond, x, y)

def f_any(a, axis=None, **k):
    return np.any(tobool(a), axis=axis) if is_symbolic(a) else np.any(a, axis=axis, **k)

def f_all(a, axis=None, **k):
    return np.all(tobool(a), axis=axis) if is_symbolic(a) else np.all(a, axis=axis, **k)

def f_count_nonzero(a, axis=None, **k):
    if is_symbolic(a):
        a = np.asarray(a, dtype=object)
        b = np.empty(a.shape, dtype=bool)
        for i in np.ndindex(*a.shape):
            e = a[i]
            b[i] = True if _is_nan(e) else bool(e)
        return np.count_nonzero(b, axis=axis)
    return np.count_nonzero(a, axis=axis)

def f_nonzero(a):
    return np.nonzero(tobool(a)) if is_symbolic(a) else np.nonzero(a)

def f_flatnonzero(a):
    return np.flatnonzero(tobool(a)) if is_symbolic(a) else np.flatnonzero(a)

def f_array_equal(a, b, **k):
    if not (is_symbolic(a) or is_symbolic(b)):
        return np.array_equal(a, b, **k)
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    return a.shape == b.shape and all(bool(x == y) for x, y in zip(a.ravel(), b.ravel()))

def f_isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if not (is_symbolic(a) or is_symbolic(b)):
        return np.isclose(a, b, rtol, atol, **k)
    a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
    out = np.empty(a.shape, dtype=bool)
    for i in np.ndindex(*a.shape):
        x, y = alg._coerce(a[i]), alg._coerce(b[i])
        if isinstance(x, float) or isinstance(y, float):
            out[i] = x is y or (isinstance(x, float) and isinstance(y, float) and x == y)
        else:
            d = x - y
            out[i] = bool(abs(d) <= Sym.const(atol) + Sym.const(rtol)*abs(y))
    return out if out.shape else bool(out)

def f_allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if not (is_symbolic(a) or is_symbolic(b)):
        return np.allclose(a, b, rtol, atol, **k)
    return bool(np.all(f_isclose(a, b, rtol, atol)))


# ------------------------------------------------------------------ reductions
def f_sum(a, axis=None, **k):
    if not is_symbolic(a):
        return np.sum(a, axis=axis, **k)
    k.pop('dtype', None)
    return wrap(np.add.reduce(np.asarray(lift(a)).ravel() if axis is None else np.asarray(lift(a)), axis=axis if axis is not None else 0,
                              keepdims=False)) if not k.get('keepdims') else wrap(np.add.reduce(np.asarray(lift(a)), axis=axis, keepdims=True))

def f_nansum(a, axis=None, **k):
    if not is_symbolic(a):
        return np.nansum(a, axis=axis, **k)
    b = lift(a)
    b = np.array(b, dtype=object)
    for i in np.ndindex(*b.shape):
        if _is_nan(b[i]):
            b[i] = ZERO
    r = f_sum(b, axis)
    if isinstance(r, Sym) and r.is_const():
        return float(r)
    return r

def _count(a, axis):
    return a.size if axis is None else a.shape[axis]

def f_mean(a, axis=None, keepdims=False, **k):
    if not is_symbolic(a):
        return np.mean(a, axis=axis, keepdims=keepdims, **k)
    a = lift(a)
    s = f_sum(a, axis, keepdims=keepdims) if keepdims else f_sum(a, axis)
    return s / Sym.const(_count(a, axis))

f_average = f_mean

def f_var(a, axis=None, ddof=0, keepdims=False, **k):
    if not is_symbolic(a):
        return np.var(a, axis=axis, ddof=ddof, keepdims=keepdims)
    a = lift(a)
    m = f_mean(a, axis, keepdims=True) if axis is not None else f_mean(a)
    d = a - m
    s = f_sum(d*d, axis)
    if keepdims:
        s = np.expand_dims(s, axis)
    return s / Sym.const(_count(a, axis) - ddof)

def f_std(a, axis=None, ddof=0, keepdims=False, **k):
    if not is_symbolic(a):
        return np.std(a, axis=axis, ddof=ddof, keepdims=keepdims)
    return f_sqrt(f_var(a, axis, ddof, keepdims))

def f_cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    if not is_symbolic(m):
        return np.cov(m, y, rowvar, bias, ddof)
    if y is not None:
        raise SymEscape('np.cov with y')
    X = lift(m)
    if X.ndim == 1:
        X = X.reshape(1, -1)
    elif not rowvar:
        X = X.T
    if ddof is None:
        ddof = 0 if bias else 1
    n = X.shape[1]
    D = X - f_mean(X, axis=1).reshape(-1, 1)
    C = np.dot(D, D.T) / Sym.const(n - ddof)
    return C.squeeze() if C.shape == (1, 1) else wrap(C)

def f_corrcoef(x, y=None, rowvar=True, **k):
    if not is_symbolic(x):
        return np.corrcoef(x, y, rowvar)
    C = f_cov(x, y, rowvar)
    if C.ndim == 0:
        return C/C
    s = [C[i, i].sqrt() for i in range(C.shape[0])]
    out = np.empty(C.shape, dtype=object)
    for i in range(C.shape[0]):
        for j in range(C.shape[1]):
            out[i, j] = C[i, j]/(s[i]*s[j])
    return out.view(SArr)

def f_nanmax(a, axis=None, **k):
    if not is_symbolic(a):
        return np.nanmax(a, axis=axis, **k)
    vals = [x for x in np.asarray(a, dtype=object).ravel() if not _is_nan(x)]
    m = vals[0]
    for x in vals[1:]:
        if bool(x > m):
            m = x
    return m

def _unary(name):
    real = getattr(np, name)
    def g(x, *a, **k):
        if isinstance(x, np.ndarray) and x.dtype == object or isinstance(x, (list, tuple)) and is_symbolic(x):
            L = np.asarray(lift(x))
            r = np.empty(L.shape, dtype=object)
            for i in np.ndindex(*L.shape):
                e = L[i]
                r[i] = getattr(e, name)() if isinstance(e, Sym) else float(real(e))
            return r.view(SArr)
        if isinstance(x, Sym):
            return getattr(x, name)()
        return real(x, *a, **k)
    return g

f_sqrt = _unary('sqrt'); f_exp = _unary('exp'); f_log = _unary('log')
UN = {n: _unary(n) for n in ('sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'sinh', 'cosh', 'tanh',
                             'log2', 'log10', 'log1p', 'expm1', 'square', 'sqrt', 'exp', 'log')}

def f_real(x): return x if is_symbolic(x) else np.real(x)
def f_imag(x): return np.zeros(np.shape(x)) if is_symbolic(x) else np.imag(x)
def f_conj(x): return x if is_symbolic(x) else np.conjugate(x)
def f_real_if_close(x, *a, **k): return x if is_symbolic(x) else np.real_if_close(x, *a, **k)
def f_nan_to_num(x, nan=0.0, **k):
    if not is_symbolic(x):
        return np.nan_to_num(x, nan=nan, **k)
    a = np.array(lift(x), dtype=object)
    for i in np.ndindex(*a.shape):
        if _is_nan(a[i]):
            a[i] = Sym.const(nan)
    return a.view(SArr)

def f_absolute(x, *a, **k):
    if isinstance(x, Sym):
        return abs(x)
    if is_symbolic(x):
        return wrap(np.absolute(np.asarray(lift(x))))
    return np.absolute(x, *a, **k)

def _bin(real):
    def g(a, b, *args, **k):
        if is_symbolic(a) or is_symbolic(b):
            w = k.get('where', True)
            if w is not True:
                out = k.get('out')
                la, lb, lw = np.broadcast_arrays(np.asarray(lift(a)), np.asarray(lift(b)), np.asarray(tobool(w)))
                res = np.empty(la.shape, dtype=object) if out is None else np.asarray(out)
                for i in np.ndindex(*la.shape):
                    if lw[i]:
                        res[i] = real(la[i], lb[i])
                    elif out is None:
                        res[i] = math.nan
                return wrap(res)
            sa = lift(a) if isinstance(a, (np.ndarray, list, tuple)) else a
            sb = lift(b) if isinstance(b, (np.ndarray, list, tuple)) else b
            return wrap(real(np.asarray(sa) if isinstance(sa, np.ndarray) else sa,
                             np.asarray(sb) if isinstance(sb, np.ndarray) else sb))
        return real(a, b, *args, **k)
    return g

def f_round(x, *a, **k):
    return x if is_symbolic(x) else np.round(x, *a, **k)

def f_errstate(*a, **k):
    return np.errstate(*a, **k)

def f_vectorize(pyfunc, *a, **k):
    def g(*args):
        if any(is_symbolic(x) for x in args):
            if k.get('signature') is not None:
                if k['signature'].replace(' ', '') != '(n)->(m)' or len(args) != 1:
                    raise SymEscape('vectorize with a signature')
                x = lift(args[0])
                if x.ndim == 0:
                    raise ValueError('0-dimensional argument does not have enough dimensions')
                if x.ndim == 1:
                    return wrap(lift(pyfunc(x)))
                return wrap(np.array([g(r) for r in x], dtype=object))
            arrs = np.broadcast_arrays(*[np.asarray(x, dtype=object) for x in args])
            out = np.empty(arrs[0].shape, dtype=object)
            for i in np.ndindex(*out.shape):
                out[i] = pyfunc(*[x[i] for x in arrs])
            return wrap(out) if out.shape else out.item()
        return np.vectorize(pyfunc, *a, **k)(*args)
    return g

def f_trace(a, *x, **k):
    if not is_symbolic(a):
        return np.trace(a, *x, **k)
    a = lift(a)
    return f_sum(np.array([a[i, i] for i in range(min(a.shape))], dtype=object))


# ------------------------------------------------------------------ linear algebra
def sym_det(A):
    n = A.shape[0]
    if n == 0:
        return ONE
    if n == 1:
        return A[0, 0]
    if n == 2:
        return A[0, 0]*A[1, 1] - A[0, 1]*A[1, 0]
    r = ZERO
    for j in range(n):
        if isinstance(A[0, j], Sym) and not A[0, j].num:
            continue
        m = np.delete(np.delete(A, 0, 0), j, 1)
        t = A[0, j]*sym_det(m)
        r = r + t if j % 2 == 0 else r - t
    return r


def _elim_block(A):
    """solve by exploiting structure: peel rows/columns with a single non-zero constant entry"""
    return None


def sym_solve(A, B):
    """exact X with A X = B (A generically invertible; divisors recorded as non-zero)"""
    A = np.array(lift(A), dtype=object)
    B = np.array(lift(B), dtype=object)
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    one_d = B.ndim == 1
    if one_d:
        B = B.reshape(-1, 1)
    if B.shape[0] != A.shape[0]:
        raise ValueError('solve: mismatch in core dimension')
    n = A.shape[0]
    # Gaussian elimination while a constant (hence certainly non-zero) pivot exists
    rows, cols, piv = list(range(n)), list(range(n)), []
    A, B = A.copy(), B.copy()
    for _ in range(n):
        best = None
        for i in rows:
            for j in cols:
                e = A[i, j]
                if e.num and e.is_const():
                    cost = sum(1 for k in cols if A[i, k].num)*sum(1 for k in rows if A[k, j].num)
                    if best is None or cost < best[0]:
                        best = (cost, i, j)
        if best is None:
            break
        _, i, j = best
        p = A[i, j]
        for k in rows:
            if k != i and A[k, j].num:
                f = A[k, j]/p
                for l in cols:
                    if l != j and A[i, l].num:
                        A[k, l] = A[k, l] - f*A[i, l]
                A[k, j] = ZERO
                for l in range(B.shape[1]):
                    B[k, l] = B[k, l] - f*B[i, l]
        piv.append((i, j))
        rows.remove(i)
        cols.remove(j)
    X = np.empty((n, B.shape[1]), dtype=object)
    if rows:
        R = A[np.ix_(rows, cols)]
        det = sym_det(R)
        if not det.num:
            raise np.linalg.LinAlgError('Singular matrix')
        m = len(rows)
        inv = det.inv() if not det.is_const() else Sym.const(1)/det
        # Cramer by adjugate
        adj = np.empty((m, m), dtype=object)
        for i in range(m):
            for j in range(m):
                mn = np.delete(np.delete(R, j, 0), i, 1)
                c = sym_det(mn)
                adj[i, j] = c if (i+j) % 2 == 0 else -c
        for l in range(B.shape[1]):
            for a in range(m):
                t = ZERO
                for b in range(m):
                    if adj[a, b].num and B[rows[b], l].num:
                        t = t + adj[a, b]*B[rows[b], l]
                X[cols[a], l] = t*inv
    done = list(cols)
    for i, j in reversed(piv):
        for l in range(B.shape[1]):
            t = B[i, l]
            for k in done:
                if A[i, k].num:
                    t = t - A[i, k]*X[k, l]
            X[j, l] = t/A[i, j]
        done.append(j)
    X = X.view(SArr)
    return X.reshape(-1) if one_d else X


def _stub(name):
    s = getattr(alg.CTX, 'stubs', None)
    return s.get(name) if s else None


def f_solve(a, b, *args, **k):
    st = _stub('solve')
    if st:
        r = st(a, b)
        if r is not None:
            return r
    if not (is_symbolic(a) or is_symbolic(b)):
        return np.linalg.solve(a, b)
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    return sym_solve(a, b)

def f_solve_sp(a, b, lower=False, overwrite_a=False, overwrite_b=False, check_finite=True, assume_a=None, transposed=False):
    """scipy's options that change the result: half of the matrix is read when it is said to be symmetric"""
    if not (is_symbolic(a) or is_symbolic(b)):
        return scipy.linalg.solve(a, b, lower=lower, assume_a=assume_a, transposed=transposed)
    a = np.asarray(lift(a))
    if assume_a in ('sym', 'symmetric', 'her', 'hermitian', 'pos', 'positive definite'):
        n = len(a)
        if any(a[i, j] is not a[j, i] and not (a[i, j].key() == a[j, i].key() if isinstance(a[i, j], Sym) and isinstance(a[j, i], Sym) else False)
               for i in range(n) for j in range(i)):
            a = np.array([[a[max(i, j), min(i, j)] if lower else a[min(i, j), max(i, j)] for j in range(n)] for i in range(n)], dtype=object)
    elif assume_a in ('upper triangular',):
        a = np.triu(a)
    elif assume_a in ('lower triangular',):
        a = np.tril(a)
    elif assume_a in ('diagonal',):
        a = np.diag(np.diag(a))
    elif assume_a not in (None, 'gen', 'general'):
        raise SymEscape(f'solve with assume_a={assume_a!r}')
    return f_solve(lift(a).T if transposed else lift(a), b)

def f_inv(a, *args, **k):
    st = _stub('inv')
    if st:
        r = st(a)
        if r is not None:
            return r
    if not is_symbolic(a):
        return np.linalg.inv(a)
    a = np.asarray(a, dtype=object)
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    return sym_solve(a, lift(np.eye(a.shape[0])))

def f_det(a):
    return sym_det(np.asarray(lift(a))) if is_symbolic(a) else np.linalg.det(a)

def f_matrix_rank(a, *x, **k):
    if not is_symbolic(a):
        return np.linalg.matrix_rank(a, *x, **k)
    st = _stub('matrix_rank')
    if st:
        return st(a)
    a = np.asarray(lift(a))
    n = min(a.shape)
    if a.shape[0] == a.shape[1] and bool(sym_det(a) != 0):
        return n
    raise SymEscape('rank of a symbolic rectangular or singular matrix')

def f_matrix_power(a, n):
    if not is_symbolic(a):
        return np.linalg.matrix_power(a, n)
    a = lift(a)
    if n < 0:
        a, n = f_inv(a), -n
    r = lift(np.eye(a.shape[0]))
    for _ in range(int(n)):
        r = np.dot(r, a)
    return r

def f_norm(x, ord=None, axis=None, **k):
    if not is_symbolic(x):
        return np.linalg.norm(x, ord, axis, **k)
    if ord not in (None, 2, 'fro') or axis is not None:
        raise SymEscape('norm')
    x = lift(x).ravel()
    return f_sum(x*x).sqrt()

def _lowered(real, name):
    """stub if the harness gives one, the real routine on constant arguments"""
    def g(*args, **k):
        st = _stub(name)
        if st:
            r = st(*args, **k)
            if r is not None:
                return r
        if any(is_symbolic(a) for a in args) or any(is_symbolic(a) for a in k.values()):
            lo = [lower(a) if is_symbolic(a) else a for a in args]
            klo = {kk: (lower(a) if is_symbolic(a) else a) for kk, a in k.items()}
            if any(x is None for x, a in zip(lo, args) if is_symbolic(a)) or any(klo[kk] is None and k[kk] is not None for kk in k):
                raise SymEscape(f'no contract for {name} on symbolic arguments')
            return real(*lo, **klo)
        return real(*args, **k)
    return g

def _mk(real, name):
    return _lowered(real, name)

def f_cholesky_np(a, **k):
    st = _stub('cholesky')
    if st:
        r = st(a, lower=True)
        if r is not None:
            return r
    return sym_chol(a) if is_symbolic(a) else np.linalg.cholesky(a, **k)

def sym_chol(a):
    """exact lower Cholesky factor; square roots are variables with s*s = argument"""
    a = np.asarray(lift(a))
    n = a.shape[0]
    L = np.empty((n, n), dtype=object)
    L.fill(ZERO)
    for j in range(n):
        t = a[j, j]
        for k in range(j):
            t = t - L[j, k]*L[j, k]
        if not bool(t > 0):
            raise scipy.linalg.LinAlgError(f'{j+1}-th leading minor of the array is not positive definite')
        L[j, j] = t.sqrt()
        for i in range(j+1, n):
            t = a[i, j]
            for k in range(j):
                t = t - L[i, k]*L[j, k]
            L[i, j] = t/L[j, j]
    return L.view(SArr)

def f_slogdet(a):
    if not is_symbolic(a):
        return np.linalg.slogdet(a)
    d = f_det(a)
    if bool(d > 0):
        return 1.0, d.log()
    if bool(d < 0):
        return -1.0, (-d).log()
    return 0.0, -math.inf


_CHOL = []


class _Lapack:
    """the two routines the library uses, exactly"""
    @staticmethod
    def dpotrf(a, lower=0, clean=1, overwrite_a=0):
        if not is_symbolic(a):
            return scipy.linalg.lapack.dpotrf(a, lower=lower, clean=clean, overwrite_a=overwrite_a)
        a = np.asarray(lift(a))
        n = len(a)
        full = np.array([[a[max(i, j), min(i, j)] if lower else a[min(i, j), max(i, j)] for j in range(n)] for i in range(n)], dtype=object)
        try:
            L = sym_chol(full)
        except scipy.linalg.LinAlgError as e:
            return wrap(np.array(a)), int(str(e).split('-')[0])
        out = L if lower else L.T
        _CHOL.append((out, full))
        del _CHOL[:-8]
        if not clean:
            out = np.where(np.tri(n, dtype=bool) if lower else np.tri(n, dtype=bool).T, out, a)
        return np.array(out, dtype=object).view(SArr), 0

    @staticmethod
    def dpotri(c, lower=0, overwrite_c=0):
        if not is_symbolic(c):
            return scipy.linalg.lapack.dpotri(c, lower=lower, overwrite_c=overwrite_c)
        c = np.array(lift(c), dtype=object)
        n = len(c)
        m = np.tri(n, dtype=bool)
        if not lower:
            m = m.T
        t = np.where(m, c, ZERO)
        for f, src in _CHOL:
            # the factor of a known matrix
            if f.shape == c.shape and all(f[i, j] is c[i, j] for i in range(n) for j in range(n) if m[i, j]):
                return np.where(m, f_inv(src), c).view(SArr), 0
        inv = f_inv(np.dot(t, t.T) if lower else np.dot(t.T, t))
        return np.where(m, inv, c).view(SArr), 0

    def __getattr__(self, n):
        return getattr(scipy.linalg.lapack, n)


def f_cholesky_sp(a, lower=False, **k):
    st = _stub('cholesky')
    if st:
        r = st(a, lower=lower)
        if r is not None:
            return r
    if not is_symbolic(a):
        return scipy.linalg.cholesky(a, lower=lower, **k)
    L = sym_chol(a)
    return L if lower else L.T

def f_lyapunov(a, q, method=None):
    st = _stub('solve_discrete_lyapunov')
    if st:
        r = st(a, q)
        if r is not None:
            return r
    if not (is_symbolic(a) or is_symbolic(q)):
        return scipy.linalg.solve_discrete_lyapunov(a, q, method)
    a, q = lift(a), lift(q)
    if a.ndim != 2 or a.shape[0] != a.shape[1] or q.shape != a.shape:
        raise ValueError('Matrix a and q must be square with the same shape')
    X = alg.CTX.fresh_array('lyap', a.shape)
    alg.CTX.premise_eq(np.dot(np.dot(a, X), a.T) + q, X)
    alg.CTX.notes.append('solve_discrete_lyapunov(a, q): fresh X with a X a\' - X + q = 0')
    return X

def f_sylvester(a, b, q):
    st = _stub('solve_sylvester')
    if st:
        r = st(a, b, q)
        if r is not None:
            return r
    if not any(is_symbolic(x) for x in (a, b, q)):
        return scipy.linalg.solve_sylvester(a, b, q)
    a, b, q = lift(a), lift(b), lift(q)
    if q.shape != (a.shape[0], b.shape[0]):
        raise ValueError('solve_sylvester: incompatible dimensions')
    X = alg.CTX.fresh_array('sylv', q.shape)
    alg.CTX.premise_eq(np.dot(a, X) + np.dot(X, b), q)
    alg.CTX.notes.append('solve_sylvester(a, b, q): fresh X with a X + X b = q')
    return X

def f_block_diag(*arrs):
    if not any(is_symbolic(a) for a in arrs):
        return scipy.linalg.block_diag(*arrs)
    arrs = [np.atleast_2d(lift(a)) for a in arrs]
    out = _filled((sum(a.shape[0] for a in arrs), sum(a.shape[1] for a in arrs)), ZERO)
    r = c = 0
    for a in arrs:
        out[r:r+a.shape[0], c:c+a.shape[1]] = a
        r += a.shape[0]
        c += a.shape[1]
    return out


class Shim:
    """attribute-wise override of a module; arrays of objects come back as SArr"""
    def __init__(self, real, over):
        self.__dict__['_real'] = real
        self.__dict__['_over'] = over
        self.__dict__['_cache'] = {}

    def __getattr__(self, name):
        o = self._over.get(name)
        if o is not None:
            return o
        c = self._cache.get(name)
        if c is not None:
            return c
        r = getattr(self._real, name)
        if isinstance(r, np.ufunc) or isinstance(r, (types.FunctionType, types.BuiltinFunctionType)) or type(r).__name__ in ('_ArrayFunctionDispatcher',):
            c = Wrapped(r)
            self._cache[name] = c
            return c
        return r


class Wrapped:
    def __init__(self, f):
        self.f = f
        self.__name__ = getattr(f, '__name__', 'f')

    def __call__(self, *a, **k):
        if 'dtype' in k and (any(is_symbolic(x) for x in a)) and _isfloat(k['dtype']):
            k = dict(k)
            k.pop('dtype')
        try:
            return wrap(self.f(*a, **k))
        except TypeError as e:
            if any(is_symbolic(x) for x in a) and ('ufunc' in str(e) or 'loop' in str(e)):
                raise SymEscape(f'no symbolic version of {self.__name__}: {e}')
            raise

    def __getattr__(self, n):
        return getattr(self.f, n)

    def __eq__(self, o):
        return self is o or self.f is o
    def __hash__(self):
        return hash(self.f)


LINALG = Shim(np.linalg, {
    'solve': f_solve, 'inv': f_inv, 'det': f_det, 'matrix_rank': f_matrix_rank, 'matrix_power': f_matrix_power,
    'norm': f_norm, 'cholesky': f_cholesky_np, 'slogdet': f_slogdet,
    'qr': _mk(np.linalg.qr, 'qr'), 'eig': _mk(np.linalg.eig, 'eig'), 'eigvals': _mk(np.linalg.eigvals, 'eigvals'),
    'eigh': _mk(np.linalg.eigh, 'eigh'), 'eigvalsh': _mk(np.linalg.eigvalsh, 'eigvalsh'), 'svd': _mk(np.linalg.svd, 'svd'),
    'pinv': f_inv, 'lstsq': _mk(np.linalg.lstsq, 'lstsq'),
})

_NP = {
    'zeros': f_zeros, 'ones': f_ones, 'empty': f_empty, 'full': f_full, 'zeros_like': f_zeros_like,
    'ones_like': f_ones_like, 'empty_like': f_empty_like, 'full_like': f_full_like,
    'eye': f_eye, 'identity': f_identity, 'tri': f_tri, 'array': f_array, 'asarray': f_asarray,
    'asfarray': f_asarray, 'ascontiguousarray': f_asarray, 'asanyarray': f_asarray,
    'isnan': f_isnan, 'isinf': f_isinf, 'isfinite': f_isfinite, 'isreal': f_isreal, 'iscomplex': f_iscomplex,
    'sign': f_sign, 'where': f_where, 'any': f_any, 'all': f_all, 'count_nonzero': f_count_nonzero,
    'nonzero': f_nonzero, 'flatnonzero': f_flatnonzero,
    'array_equal': f_array_equal, 'isclose': f_isclose, 'allclose': f_allclose, 'sum': f_sum, 'nansum': f_nansum,
    'mean': f_mean, 'average': f_average, 'var': f_var, 'std': f_std, 'cov': f_cov, 'corrcoef': f_corrcoef,
    'nanmax': f_nanmax, 'real': f_real, 'imag': f_imag, 'conj': f_conj, 'conjugate': f_conj,
    'real_if_close': f_real_if_close, 'nan_to_num': f_nan_to_num, 'absolute': f_absolute, 'abs': f_absolute, 'fabs': f_absolute,
    'divide': _bin(np.divide), 'true_divide': _bin(np.divide), 'multiply': _bin(np.multiply), 'add': _bin(np.add),
    'subtract': _bin(np.subtract), 'power': _bin(np.power), 'round': f_round, 'around': f_round,
    'vectorize': f_vectorize, 'trace': f_trace, 'linalg': LINALG,
}
_NP.update(UN)
NP = Shim(np, _NP)

SP_LINALG = Shim(scipy.linalg, {
    'solve': f_solve_sp, 'inv': f_inv, 'det': f_det, 'cholesky': f_cholesky_sp, 'lapack': _Lapack(),
    'solve_discrete_lyapunov': f_lyapunov, 'solve_sylvester': f_sylvester, 'block_diag': f_block_diag,
    'pinv': f_inv, 'norm': f_norm,
    'qr': _mk(scipy.linalg.qr, 'qr'), 'qz': _mk(scipy.linalg.qz, 'qz'), 'ordqz': _mk(scipy.linalg.ordqz, 'ordqz'),
    'schur': _mk(scipy.linalg.schur, 'schur'), 'eig': _mk(scipy.linalg.eig, 'eig'), 'eigvals': _mk(scipy.linalg.eigvals, 'eigvals'),
    'eigh': _mk(scipy.linalg.eigh, 'eigh'), 'svd': _mk(scipy.linalg.svd, 'svd'), 'lu': _mk(scipy.linalg.lu, 'lu'),
    'sqrtm': _mk(scipy.linalg.sqrtm, 'sqrtm'), 'expm': _mk(scipy.linalg.expm, 'expm'),
    'lu_factor': lambda a, *x, **k: ('lu', a) if is_symbolic(a) else scipy.linalg.lu_factor(a, *x, **k),
    'lu_solve': lambda lu, b, *x, **k: f_solve(lu[1], b) if isinstance(lu[0], str) else scipy.linalg.lu_solve(lu, b, *x, **k),
    'solve_triangular': lambda a, b, trans=0, lower=False, **k: (
        f_solve(lift(np.tril(a) if lower else np.triu(a)) if trans in (0, 'N') else lift(np.tril(a) if lower else np.triu(a)).T, b)
        if is_symbolic(a) or is_symbolic(b) else scipy.linalg.solve_triangular(a, b, trans=trans, lower=lower, **k)),
})
class _Scipy:
    linalg = SP_LINALG
    def __getattr__(self, n):
        return getattr(scipy, n)
SP = _Scipy()

HANDLED = {}
for _n, _f in _NP.items():
    _r = getattr(np, _n, None)
    if callable(_r) and not isinstance(_r, np.ufunc) and _f is not LINALG and not isinstance(_r, type):
        HANDLED[_r] = _f
def f_divide(a, b):
    """numpy division: a constant zero denominator gives inf or nan instead of an error"""
    la, lb = np.broadcast_arrays(np.asarray(lift(a)), np.asarray(lift(b)))
    out = np.empty(la.shape, dtype=object)
    for i in np.ndindex(*la.shape):
        x, y = la[i], lb[i]
        if isinstance(y, Sym) and y.is_const() and y.value() == 0:
            if isinstance(x, Sym):
                out[i] = math.nan if bool(x == 0) else math.inf if bool(x > 0) else -math.inf
            else:
                out[i] = x if isinstance(x, float) else math.nan
        else:
            out[i] = x / y
    return wrap(out)


UFUNC = {np.divide: f_divide, np.isnan: f_isnan, np.isinf: f_isinf, np.isfinite: f_isfinite, np.sign: f_sign}
for _n, _f in UN.items():
    UFUNC[getattr(np, _n)] = _f


# ------------------------------------------------------------------ builtins
_real_isinstance = builtins.isinstance

def f_isinstance(o, t):
    if _real_isinstance(o, Sym):
        ts = t if type(t) is tuple else (t,)
        flat = []
        def fl(x):
            if type(x) is tuple:
                for y in x: fl(y)
            elif _real_isinstance(x, types.UnionType):
                for y in x.__args__: fl(y)
            else:
                flat.append(x)
        fl(t)
        for x in flat:
            if x is float or x is SFloat or x is Sym or x is object or x in (np.floating, np.number, np.float64):
                return True
            if _real_isinstance(x, type) and x not in (int, bool, str) and _real_isinstance(o, x):
                return True
        return False
    if type(t) is tuple and SFloat in t:
        t = tuple(float if x is SFloat else x for x in t)
    elif t is SFloat:
        t = float
    return _real_isinstance(o, t)


class SFloat(float):
    def __new__(cls, x=0.0):
        if _real_isinstance(x, Sym):
            return x
        h = getattr(x, '__symfloat__', None)
        if h is not None:
            return h()
        if _real_isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return cls(x.item())
        return float(x)


class _Math:
    def __getattr__(self, n):
        real = getattr(math, n)
        if callable(real):
            def g(*a):
                if a and any(_real_isinstance(x, Sym) for x in a):
                    alias = {'fabs': 'absolute', 'asin': 'arcsin', 'acos': 'arccos', 'atan': 'arctan'}.get(n, n)
                    if n == 'isnan' or n == 'isinf': return False
                    if n == 'isfinite': return True
                    if n == 'fabs': return abs(a[0])
                    if n == 'pow': return a[0]**a[1]
                    if hasattr(Sym, alias): return getattr(alg._coerce(a[0]), alias)()
                    raise SymEscape(f'math.{n}')
                return real(*a)
            return g
        return real
MATH = _Math()


# ------------------------------------------------------------------ patching
def pynare_modules():
    return [m for n, m in sorted(sys.modules.items()) if m is not None and (n == 'pynare' or n.startswith('pynare.'))]


def install(only=None, extra=None, builtins_=('isinstance',), skip=()):
    """replace numpy/scipy/math globals of the pynare modules; returns an undo function"""
    import autograd.numpy as anp
    table = {id(np): NP, id(anp): NP, id(scipy): SP, id(scipy.linalg): SP_LINALG, id(np.linalg): LINALG, id(math): MATH}
    direct = {}
    for n, f in _NP.items():
        r = getattr(np, n, None)
        if r is not None:
            direct[id(r)] = f
        r = getattr(anp, n, None)
        if r is not None:
            direct[id(r)] = f
    for n, f in LINALG._over.items():
        direct[id(getattr(np.linalg, n))] = f
    for n, f in SP_LINALG._over.items():
        direct[id(getattr(scipy.linalg, n))] = f
    saved, snaps = [], []
    for m in pynare_modules():
        if only is not None and m.__name__ not in only:
            continue
        if m.__name__ in skip:
            continue
        d = m.__dict__
        for k, v in list(d.items()):
            new = table.get(id(v))
            if new is None and callable(v):
                new = direct.get(id(v))
            if new is not None:
                saved.append((d, k, v, True))
                d[k] = new
        bl = {'isinstance': f_isinstance, 'float': SFloat}
        for b in builtins_:
            if b not in d:
                saved.append((d, b, None, False))
                d[b] = bl[b]
        # module-level dicts of functions (e.g. the table of supported functions)
        for k, v in list(d.items()):
            if type(v) is dict and not k.startswith('__'):
                snaps.append((v, dict(v)))
                for kk, vv in list(v.items()):
                    new = direct.get(id(vv)) if callable(vv) else None
                    if new is not None:
                        saved.append((v, kk, vv, True))
                        v[kk] = new
    for (d, k, new) in (extra or []):
        if k in d:
            saved.append((d, k, d[k], True))
        else:
            saved.append((d, k, None, False))
        d[k] = new

    def undo():
        for d, k, v, had in reversed(saved):
            if had:
                d[k] = v
            else:
                d.pop(k, None)
        for v, old in snaps:        # module-level caches filled with symbolic values
            if v is not old and (len(v) != len(old)):
                v.clear()
                v.update(old)
    return undo
