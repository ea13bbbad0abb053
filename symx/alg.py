"""Exact symbolic numbers for executing numeric Python code on symbolic inputs.

`Sym` is a multivariate rational function with rational coefficients.  Binary floats
met during execution are taken at their exact value.  Comparisons build `SymBool`s,
whose truth value is a *decision* taken by the active exploration context (see engine.py).
Functions that are not rational (exp, log, sqrt, x**y, ...) become fresh variables,
one per canonical argument, together with the facts the solver may use about them.
"""
import math
import numbers
from fractions import Fraction
from functools import lru_cache


class SymEscape(BaseException):
    """The executed code asked for something the encoding cannot represent."""


# ----------------------------------------------------------------- variables
class Var:
    __slots__ = ('id', 'name', 'kind', 'lo', 'hi', 'defn', 'z3')
    def __init__(self, id, name, kind='real', lo=None, hi=None, defn=None):
        self.id, self.name, self.kind = id, name, kind
        self.lo, self.hi, self.defn = lo, hi, defn
        self.z3 = None


class Store:
    """Variables of the exploration in progress."""
    def __init__(self):
        self.vars = []
        self.by_name = {}
        self.uf = {}        # (fname, canonical args) -> Sym
        self.facts = []     # SymBools that hold by construction of the UFs

    def new(self, name, **kw):
        if name in self.by_name:
            return self.by_name[name]
        v = Var(len(self.vars), name, **kw)
        self.vars.append(v)
        self.by_name[name] = v
        return v


STORE = Store()
CTX = None      # the active engine.Context


def set_ctx(ctx, store):
    global CTX, STORE
    CTX, STORE = ctx, store


# ----------------------------------------------------------------- polynomials
# monomial: tuple of (var id, exponent) sorted by id;   polynomial: dict monomial -> Fraction
ONE = ()

@lru_cache(maxsize=400000)
def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def mdiv(a, b):
    """a / b or None"""
    d = dict(a)
    for v, e in b:
        x = d.get(v, 0) - e
        if x < 0:
            return None
        if x == 0:
            d.pop(v, None)
        else:
            d[v] = x
    return tuple(sorted(d.items()))


def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        x = r.get(m, 0) + c
        if x:
            r[m] = x
        else:
            r.pop(m, None)
    return r


def pneg(a):
    return {m: -c for m, c in a.items()}


def pscale(a, k):
    if not k:
        return {}
    return {m: c*k for m, c in a.items()}


class TooBig(SymEscape):
    pass

MAX_TERMS = 60000

def pmul(a, b):
    if not a or not b:
        return {}
    if len(a) == 1:
        (m0, c0), = a.items()
        if m0 == ONE:
            return pscale(b, c0)
    if len(b) == 1:
        (m0, c0), = b.items()
        if m0 == ONE:
            return pscale(a, c0)
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            r[m] = r.get(m, 0) + c1*c2
    if len(r) > MAX_TERMS:
        raise TooBig('polynomial too large')
    return {m: c for m, c in r.items() if c}


def pdeg(m):
    return sum(e for _, e in m)


def lead(p):
    # lexicographic: compare as vectors of exponents, lower var id more significant
    return max(p, key=_lexkey)

def _lexkey(m):
    return tuple((-v, e) for v, e in m) + ((-10**9, 0),)


def pdivexact(a, b):
    """a / b if the division is exact, else None"""
    if not a:
        return {}
    if len(b) == 1:
        (mb, cb), = b.items()
        r = {}
        for m, c in a.items():
            q = mdiv(m, mb)
            if q is None:
                return None
            r[q] = c / cb
        return r
    va = set(v for m in a for v, _ in m)
    for m in b:
        for v, _ in m:
            if v not in va:
                return None
    if len(a) < len(b) and len(a) < 2:
        return None
    lb = lead(b)
    cb = b[lb]
    q = {}
    rem = dict(a)
    steps = 0
    while rem:
        lr = lead(rem)
        mq = mdiv(lr, lb)
        if mq is None:
            return None
        cq = rem[lr] / cb
        q[mq] = cq
        for m, c in b.items():
            mm = mmul(m, mq)
            x = rem.get(mm, 0) - cq*c
            if x:
                rem[mm] = x
            else:
                rem.pop(mm, None)
        steps += 1
        if steps > 4000:
            return None
    return q


def pkey(p):
    return tuple(sorted(p.items()))


class Factor:
    """an irreducible-enough denominator polynomial (monic in its leading term)"""
    __slots__ = ('p', 'key', 'h')
    _cache = {}
    def __new__(cls, p):
        key = pkey(p)
        f = cls._cache.get(key)
        if f is None:
            f = object.__new__(cls)
            f.p, f.key, f.h = p, key, hash(key)
            cls._cache[key] = f
        return f
    def __hash__(self):
        return self.h
    def __eq__(self, o):
        return self is o


@lru_cache(maxsize=20000)
def _fpow(f, n):
    r = {ONE: Fraction(1)}
    for _ in range(n):
        r = pmul(r, f.p)
    return r


def _expand_den(den):
    r = {ONE: Fraction(1)}
    for f, n in den.items():
        r = pmul(r, _fpow(f, n))
    return r


def _frac(x):
    """exact Fraction of a concrete number, or None when it is nan/inf"""
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            return None
        return Fraction(x)
    raise SymEscape(f'cannot convert {type(x)} to a fraction')


_NUM = (int, float, Fraction)


def _coerce(x):
    """Sym for a number, NotImplemented for anything else, a float when not finite"""
    if isinstance(x, Sym):
        return x
    if type(x) in (int, float, bool, Fraction) or isinstance(x, _NUM):
        f = _frac(float(x) if isinstance(x, float) else x)
        if f is None:
            return float(x)
        return Sym._const(f)
    if isinstance(x, numbers.Number) and not isinstance(x, complex) or hasattr(x, 'dtype') and getattr(x, 'ndim', 1) == 0:
        if hasattr(x, 'item'):
            x = x.item()
            if isinstance(x, Sym):
                return x
            if isinstance(x, SymBool):
                return NotImplemented
            if isinstance(x, complex):
                if x.imag == 0:
                    x = x.real
                else:
                    raise SymEscape('complex operand')
            if isinstance(x, _NUM):
                return _coerce(x)
    if isinstance(x, complex):
        if x.imag == 0:
            return _coerce(x.real)
        raise SymEscape('complex operand')
    return NotImplemented


class Sym:
    __slots__ = ('num', 'den', '_key')

    # ------------------------------------------------------------- building
    @staticmethod
    def _mk(num, den):
        s = object.__new__(Sym)
        s.num, s.den, s._key = num, den, None
        return s

    @staticmethod
    def _const(f):
        return Sym._mk({ONE: f} if f else {}, {})

    @staticmethod
    def var(v):
        return Sym._mk({((v.id, 1),): Fraction(1)}, {})

    @staticmethod
    def const(x):
        return Sym._const(_frac(x))

    def key(self):
        if self._key is None:
            self._key = (pkey(self.num), tuple(sorted((f.key, n) for f, n in self.den.items())))
        return self._key

    def is_const(self):
        return not self.den and (not self.num or (len(self.num) == 1 and ONE in self.num))

    def value(self):
        return self.num.get(ONE, Fraction(0))

    def _simplify(self):
        """cancel denominator factors that divide the numerator; constants become exact"""
        if self.den:
            if not self.num:
                self.den = {}
                return self
            for f in list(self.den):
                while f in self.den:
                    q = pdivexact(self.num, f.p)
                    if q is None:
                        break
                    self.num = q
                    if self.den[f] == 1:
                        del self.den[f]
                    else:
                        self.den[f] -= 1
        return self

    # ----------------------------------------------------------- arithmetic
    def __add__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return o
        if not self.den and not o.den:
            return Sym._mk(padd(self.num, o.num), {})
        if not o.num:
            return self
        if not self.num:
            return o
        den = dict(self.den)
        for f, n in o.den.items():
            den[f] = max(den.get(f, 0), n)
        a, b = self.num, o.num
        for f, n in den.items():
            k = n - self.den.get(f, 0)
            if k:
                a = pmul(a, _fpow(f, k))
            k = n - o.den.get(f, 0)
            if k:
                b = pmul(b, _fpow(f, k))
        return Sym._mk(padd(a, b), den)._simplify()

    __radd__ = __add__

    def __neg__(self):
        return Sym._mk(pneg(self.num), dict(self.den))

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return -o
        return self + (-o)

    def __rsub__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return o
        return o + (-self)

    def __mul__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            if o != o:
                return o
            raise SymEscape('infinity times a symbolic number')
        num = pmul(self.num, o.num)
        if not self.den and not o.den:
            return Sym._mk(num, {})
        den = dict(self.den)
        for f, n in o.den.items():
            den[f] = den.get(f, 0) + n
        return Sym._mk(num, den)._simplify()

    __rmul__ = __mul__

    def inv(self):
        if not self.num:
            raise ZeroDivisionError('symbolic division by zero')
        num = _expand_den(self.den)
        p = self.num
        den = {}
        # split off the monomial content
        common = None
        for m in p:
            d = dict(m)
            if common is None:
                common = d
            else:
                common = {v: min(e, d[v]) for v, e in common.items() if v in d}
            if not common:
                break
        if common:
            cm = tuple(sorted(common.items()))
            p = {mdiv(m, cm): c for m, c in p.items()}
            for v, e in common.items():
                den[Factor({((v, 1),): Fraction(1)})] = e
        # scale
        lc = p[lead(p)]
        p = {m: c/lc for m, c in p.items()}
        num = pscale(num, 1/lc)
        if not (len(p) == 1 and ONE in p):
            f = Factor(p)
            # reuse known factors
            den[f] = den.get(f, 0) + 1
        if den and CTX is not None:
            CTX.note_divisor(self)
        return Sym._mk(num, den)._simplify()

    def __truediv__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            if o != o:
                return o
            return Sym._const(Fraction(0))
        return self * o.inv()

    def __rtruediv__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            raise SymEscape('non-finite / symbolic')
        return o * self.inv()

    def __pow__(self, o, mod=None):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            raise SymEscape('non-finite exponent')
        if o.is_const():
            e = o.value()
            if e.denominator == 1:
                n = int(e)
                if n == 0:
                    return Sym._const(Fraction(1))
                if abs(n) <= 12:
                    b = self if n > 0 else self.inv()
                    r = b
                    for _ in range(abs(n)-1):
                        r = r*b
                    return r
            if e == Fraction(1, 2):
                return self.sqrt()
            if self.is_const() and self.value() >= 0:
                pass
        if self.is_const() and self.value() == 1:
            return Sym._const(Fraction(1))
        return uf('pow', self, o)

    def __rpow__(self, o, mod=None):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            raise SymEscape('non-finite base')
        return o ** self

    def __abs__(self):
        if self.is_const():
            return Sym._const(abs(self.value()))
        if sqrt_base(self) is not None:
            return self
        if bool(self < 0):
            return -self
        return self

    # -------------------------------------------- numpy object-ufunc methods
    def sqrt(self):
        if self.is_const():
            v = self.value()
            if v < 0:
                return math.nan
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n*n == v.numerator and d*d == v.denominator:
                return Sym._const(Fraction(n, d))
        return uf('sqrt', self)

    def exp(self):
        if self.is_const() and self.value() == 0:
            return Sym._const(Fraction(1))
        return uf('exp', self)

    def log(self):
        if self.is_const() and self.value() == 1:
            return Sym._const(Fraction(0))
        return uf('log', self)

    def sin(self): return uf('sin', self)
    def cos(self): return uf('cos', self)
    def tan(self): return uf('tan', self)
    def arcsin(self): return uf('arcsin', self)
    def arccos(self): return uf('arccos', self)
    def arctan(self): return uf('arctan', self)
    def sinh(self): return uf('sinh', self)
    def cosh(self): return uf('cosh', self)
    def tanh(self): return uf('tanh', self)
    def log2(self): return uf('log2', self)
    def log10(self): return uf('log10', self)
    def log1p(self): return (self+1).log()
    def expm1(self): return self.exp() - 1

    def conjugate(self): return self
    conj = conjugate
    @property
    def real(self): return self
    @property
    def imag(self): return Sym._const(Fraction(0))
    @property
    def T(self): return self
    def item(self): return self
    def isnan(self): return False
    def isfinite(self): return True
    def isinf(self): return False
    def square(self): return self*self
    def is_integer(self): return self.is_const() and self.value().denominator == 1
    @property
    def ndim(self): raise AttributeError('ndim')

    # ---------------------------------------------------------- comparisons
    def _cmp(self, o, op):
        c = _coerce(o)
        if c is NotImplemented:
            return c
        if isinstance(c, float):
            if c != c:
                return op == 'ne'
            if op in ('lt', 'le'):
                return c > 0
            if op in ('gt', 'ge'):
                return c < 0
            return op == 'ne'
        d = self - c
        if d.is_const():
            v = d.value()
            return {'lt': v < 0, 'le': v <= 0, 'gt': v > 0, 'ge': v >= 0,
                    'eq': v == 0, 'ne': v != 0}[op]
        if op == 'lt': return SymBool('lt', d)
        if op == 'le': return SymBool('le', d)
        if op == 'gt': return SymBool('lt', -d)
        if op == 'ge': return SymBool('le', -d)
        if op == 'eq': return SymBool('eq', d)
        return SymBool('not', SymBool('eq', d))

    def __lt__(self, o): return self._cmp(o, 'lt')
    def __le__(self, o): return self._cmp(o, 'le')
    def __gt__(self, o): return self._cmp(o, 'gt')
    def __ge__(self, o): return self._cmp(o, 'ge')
    def __eq__(self, o): return self._cmp(o, 'eq')
    def __ne__(self, o): return self._cmp(o, 'ne')

    def __hash__(self):
        if self.is_const():
            return hash(self.value())
        return hash(self.key())

    def __bool__(self):
        r = (self != 0)
        return bool(r)

    # ---------------------------------------------------------- conversions
    def __float__(self):
        if self.is_const():
            return float(self.value())
        raise SymEscape(f'float() of a symbolic number')

    def __int__(self):
        if self.is_const():
            return int(self.value())
        raise SymEscape('int() of a symbolic number')

    def __index__(self):
        if self.is_const() and self.value().denominator == 1:
            return int(self.value())
        if self.is_const():
            raise TypeError('not an integer')
        raise SymEscape('index from a symbolic number')

    def __complex__(self):
        return complex(float(self))

    def __round__(self, n=None):
        if self.is_const():
            return round(float(self.value()), n)
        return uf(f'round{n}', self)

    def __floordiv__(self, o): raise SymEscape('floor division of a symbolic number')
    __rfloordiv__ = __mod__ = __rmod__ = __floordiv__

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def astype(self, *_a, **_k): return self
    def copy(self): return self

    def __repr__(self):
        return show(self)

    def __format__(self, spec):
        if self.is_const() and spec and spec[-1] in 'efgEFGdn%':
            return format(float(self.value()), spec)
        if CTX is not None and not self.is_const():
            return CTX.format_sym(self, spec)
        if self.is_const():
            return format(float(self.value()), spec)
        return format(repr(self), spec)

    def __str__(self):
        if self.is_const():
            return str(float(self.value()))
        if CTX is not None:
            return CTX.format_sym(self, '')
        return repr(self)

    def __reduce__(self):
        raise SymEscape('pickling a symbolic number')

    # ------------------------------------------------------------- analysis
    def vars(self):
        r = set(v for m in self.num for v, _ in m)
        for f in self.den:
            r |= set(v for m in f.p for v, _ in m)
        return r

    def eval(self, env):
        """numeric value under env (var id -> Fraction/float)"""
        n = peval(self.num, env)
        if self.den:
            d = 1
            for f, k in self.den.items():
                d = d * peval(f.p, env)**k
            return n/d
        return n


def peval(p, env):
    r = Fraction(0)
    for m, c in p.items():
        t = c
        for v, e in m:
            t = t * env[v]**e
        r = r + t
    return r


numbers.Real.register(Sym)


def mshow(m):
    return '*'.join(STORE.vars[v].name + (f'^{e}' if e > 1 else '') for v, e in m) or '1'


def pshow(p):
    if not p:
        return '0'
    out = []
    for m, c in sorted(p.items()):
        cs = str(c)
        if m == ONE:
            out.append(cs)
        elif c == 1:
            out.append(mshow(m))
        else:
            out.append(f'{cs}*{mshow(m)}')
        if len(out) > 12:
            out.append(f'...[{len(p)} terms]')
            break
    return ' + '.join(out)


def show(x):
    if not isinstance(x, Sym):
        return repr(x)
    s = pshow(x.num)
    if x.den:
        s = f'({s})/(' + '*'.join(f'({pshow(f.p)})' + (f'^{n}' if n > 1 else '') for f, n in x.den.items()) + ')'
    return s


# ----------------------------------------------------------------- functions
def uf(name, *args):
    args = tuple(_coerce(a) for a in args)
    key = (name,) + tuple(a.key() for a in args)
    r = STORE.uf.get(key)
    if r is not None:
        return r
    v = STORE.new(f'{name}#{len(STORE.uf)}', kind='uf', defn=(name, args))
    s = Sym.var(v)
    STORE.uf[key] = s
    a = args[0]
    F = STORE.facts
    if name == 'exp':
        F.append(SymBool('lt', -s))
    elif name == 'sqrt':
        F.append(SymBool('or', SymBool('lt', a), SymBool('and', SymBool('le', -s), SymBool('eq', s*s - a))))
    elif name == 'pow':
        F.append(SymBool('or', SymBool('le', a), SymBool('lt', -s)))
    return s


def sqrt_base(s):
    """if s is exactly one sqrt/exp variable return its argument"""
    if len(s.num) == 1 and not s.den:
        (m, c), = s.num.items()
        if c > 0 and len(m) == 1 and m[0][1] == 1:
            v = STORE.vars[m[0][0]]
            if v.defn and v.defn[0] in ('sqrt', 'exp'):
                return v.defn[1][0]
    return None


_FN = {
    'exp': math.exp, 'log': math.log, 'sqrt': math.sqrt, 'sin': math.sin, 'cos': math.cos,
    'tan': math.tan, 'arcsin': math.asin, 'arccos': math.acos, 'arctan': math.atan,
    'sinh': math.sinh, 'cosh': math.cosh, 'tanh': math.tanh, 'log2': math.log2,
    'erf': math.erf, 'log10': math.log10, 'pow': lambda a, b: float(a)**float(b),
}


def eval_uf(name, vals):
    if name.startswith('round'):
        n = name[5:]
        return round(float(vals[0]), None if n == 'None' else int(n))
    if any(isinstance(v, complex) for v in vals):
        raise ValueError('complex argument')
    return _FN[name](*[float(v) for v in vals])


class Env(dict):
    """var id -> number; UF variables are computed from their definitions on demand"""
    def __missing__(self, vid):
        v = STORE.vars[vid]
        if v.defn is None:
            raise KeyError(vid)
        name, args = v.defn
        val = eval_uf(name, [a.eval(self) for a in args])
        self[vid] = val
        return val


# ----------------------------------------------------------------- booleans
class SymBool:
    __slots__ = ('op', 'a', 'b')

    def __init__(self, op, a=None, b=None):
        self.op, self.a, self.b = op, a, b

    def __bool__(self):
        if CTX is None:
            raise SymEscape('truth value of a symbolic condition outside an exploration')
        return CTX.decide(self)

    def __and__(self, o):
        if isinstance(o, SymBool):
            return SymBool('and', self, o)
        if isinstance(o, (bool,)) or type(o).__name__ == 'bool':
            return self if o else False
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymBool):
            return SymBool('or', self, o)
        if isinstance(o, (bool,)) or type(o).__name__ == 'bool':
            return True if o else self
        return NotImplemented
    __ror__ = __or__

    def __invert__(self):
        return SymBool('not', self)
    def logical_not(self):
        return SymBool('not', self)
    def logical_and(self, o):
        return self & o

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return SymBool('iff', self, o)
        if isinstance(o, bool) or type(o).__name__ == 'bool':
            return self if o else ~self
        if isinstance(o, (int, float)):
            if o == 1: return self
            if o == 0: return ~self
            return False
        return NotImplemented
    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else (not r if isinstance(r, bool) else ~r)
    __hash__ = object.__hash__

    # arithmetic on truth values forks
    def __int__(self): return int(bool(self))
    def __index__(self): return int(bool(self))
    def __float__(self): return float(bool(self))
    def __add__(self, o): return int(bool(self)) + o
    __radd__ = __add__
    def __mul__(self, o): return int(bool(self)) * o
    __rmul__ = __mul__
    def __sub__(self, o): return int(bool(self)) - o
    def __rsub__(self, o): return o - int(bool(self))

    def eval(self, env):
        op = self.op
        if op == 'lt': return self.a.eval(env) < 0
        if op == 'le': return self.a.eval(env) <= 0
        if op == 'eq': return self.a.eval(env) == 0
        if op == 'not': return not self.a.eval(env)
        if op == 'and': return self.a.eval(env) and self.b.eval(env)
        if op == 'or': return self.a.eval(env) or self.b.eval(env)
        if op == 'iff': return bool(self.a.eval(env)) == bool(self.b.eval(env))
        if op == 'flag': return bool(env[self.a.id])
        if op == 'is': return env[self.a.id] == self.b
        raise AssertionError(op)

    def vars(self):
        op = self.op
        if op in ('lt', 'le', 'eq'): return self.a.vars()
        if op == 'not': return self.a.vars()
        if op in ('flag', 'is'): return {self.a.id}
        return self.a.vars() | self.b.vars()

    def __repr__(self):
        op = self.op
        if op == 'lt': return f'{show(self.a)} < 0'
        if op == 'le': return f'{show(self.a)} <= 0'
        if op == 'eq': return f'{show(self.a)} == 0'
        if op == 'not': return f'not({self.a!r})'
        if op == 'flag': return self.a.name
        if op == 'is': return f'{self.a.name}=={self.b!r}'
        return f'({self.a!r} {op} {self.b!r})'


def conj(bs):
    r = None
    for b in bs:
        if b is True or (not isinstance(b, SymBool) and b):
            continue
        if not isinstance(b, SymBool):
            return False
        r = b if r is None else SymBool('and', r, b)
    return True if r is None else r


def disj(bs):
    r = None
    for b in bs:
        if not isinstance(b, SymBool):
            if b:
                return True
            continue
        r = b if r is None else SymBool('or', r, b)
    return False if r is None else r


# ----------------------------------------------------------------- differentiation
def diff(s, vid):
    """partial derivative of a Sym w.r.t. the variable with id vid (through UFs)"""
    if not isinstance(s, Sym):
        return Sym._const(Fraction(0))
    out = Sym._const(Fraction(0))
    for w in s.vars():
        v = STORE.vars[w]
        if w == vid:
            out = out + _pd(s, w)
        elif v.defn is not None:
            dv = _duf(v, vid)
            if dv.num:
                out = out + _pd(s, w)*dv
    return out


def _pdp(p, w):
    r = {}
    for m, c in p.items():
        for i, (v, e) in enumerate(m):
            if v == w:
                m2 = m[:i] + (((v, e-1),) if e > 1 else ()) + m[i+1:]
                r[m2] = r.get(m2, 0) + c*e
    return {m: c for m, c in r.items() if c}


def _pd(s, w):
    num, den = s.num, s.den
    r = Sym._mk(_pdp(num, w), dict(den))._simplify()
    for f, n in den.items():
        df = _pdp(f.p, w)
        if df:
            d2 = dict(den)
            d2[f] = n + 1
            r = r - Sym._mk(pscale(pmul(num, df), Fraction(n)), d2)._simplify()
    return r


def _duf(v, vid):
    name, args = v.defn
    s = Sym.var(v)
    a = args[0]
    da = diff(a, vid)
    if name == 'pow':
        b = args[1]
        db = diff(b, vid)
        r = Sym._const(Fraction(0))
        if da.num:
            r = r + b*s/a*da
        if db.num:
            r = r + s*a.log()*db
        return r
    if not da.num:
        return da
    if name == 'exp': return s*da
    if name == 'log': return da/a
    if name == 'sqrt': return da/(2*s)
    if name == 'sin': return a.cos()*da
    if name == 'cos': return -(a.sin())*da
    if name == 'tan': return (1+s*s)*da
    if name == 'sinh': return a.cosh()*da
    if name == 'cosh': return a.sinh()*da
    if name == 'tanh': return (1-s*s)*da
    if name == 'arctan': return da/(1+a*a)
    raise SymEscape(f'derivative of {name}')


# ----------------------------------------------------------------- substitution
def subst(s, env):
    """replace variables (by id) with Syms, also inside function arguments"""
    if not isinstance(s, Sym):
        return s
    env = dict(env)
    def val(w):
        r = env.get(w)
        if r is None:
            v = STORE.vars[w]
            if v.defn is None:
                r = Sym.var(v)
            else:
                name, args = v.defn
                new = [subst(a, env) for a in args]
                if all(a.key() == b.key() for a, b in zip(args, new)):
                    r = Sym.var(v)
                else:
                    r = apply(name, new)
            env[w] = r
        return r
    def poly(p):
        out = Sym._const(Fraction(0))
        for m, c in p.items():
            t = Sym._const(c)
            for v, e in m:
                t = t * val(v)**e
            out = out + t
        return out
    r = poly(s.num)
    for f, n in s.den.items():
        r = r / poly(f.p)**n
    return r


def apply(name, args):
    """a function of Syms, with the simplifications of the corresponding method"""
    if name == 'pow':
        return args[0]**args[1]
    if name.startswith('round') or not hasattr(Sym, name):
        return uf(name, *args)
    return getattr(args[0], name)()
