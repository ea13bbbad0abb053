"""linear regimes for the occasionally binding constraint checks (C17, C18)"""
import itertools
import warnings
from fractions import Fraction
import numpy as np
from .common import *
from .models import HModel, _SS
from pynare.core.solve.first_order import FirstOrderSolution
from .eqs import make, derivative_stubs, no_statespace, PERIODS
from pynare import Model
from symx import alg, shim
from symx.alg import Sym, SymBool
from pynare.core.solve.binding import Constraint


class Regime:
    """A y(+1) + B y + C y(-1) + E u + D = 0"""
    def __init__(self, A, B, C, E, D):
        self.A, self.B, self.C, self.E, self.D = A, B, C, E, D


def rows(*rs):
    return [list(r) for r in rs]


def dot(a, x):
    return sum((p*q for p, q in zip(a, x)), 0*x[0])


def mm(a, b):
    return [[sum((a[i][k]*b[k][j] for k in range(len(b))), 0*b[0][0]) for j in range(len(b[0]))] for i in range(len(a))]


def mv(a, x):
    return [dot(r, x) for r in a]


def add(a, b):
    return [add(x, y) if isinstance(x, list) else x+y for x, y in zip(a, b)]


def neg(a):
    return [neg(x) if isinstance(x, list) else -x for x in a]


def det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    return sum(((-1)**j*m[0][j]*det([r[:j]+r[j+1:] for r in m[1:]]) for j in range(n)), 0*m[0][0])


def inverse(m):
    n, d = len(m), det(m)
    if n == 1:
        return [[1/d]]
    minor = lambda i, j: det([r[:j]+r[j+1:] for k, r in enumerate(m) if k != i])
    return [[(-1)**(i+j)*minor(j, i)/d for j in range(n)] for i in range(n)]


def reference(A, B, gy, gu):
    """the regime that has y = gy y(-1) + gu u as its solution"""
    M = add(mm(A, gy), B)
    n = len(A)
    return Regime(A, B, neg(mm(M, gy)), neg(mm(M, gu)), [0*A[0][0] for _ in range(n)])


def replace(ref, rws):
    """rws = {equation: (A row, B row, C row, E row, D)}"""
    R = Regime(*[[list(r) for r in m] for m in (ref.A, ref.B, ref.C, ref.E)], list(ref.D))
    for e, (a, b, c, u, d) in rws.items():
        R.A[e], R.B[e], R.C[e], R.E[e], R.D[e] = a, b, c, u, d
    return R


def zero(x):
    return (x.is_const() and x.value() == 0) if isinstance(x, Sym) else x == 0


def text(ctx, reg, names, shocks, pre, pars, levels=False, quad=None):
    """
    one equation per row, in terms of parameters named pre..., which are put into pars. in levels, as deviations from the parameters s...
    with the square of a deviation added if there is to be something to linearise
    """
    dev = lambda j, t: f'({names[j]}{PERIODS[t]} - s{names[j]})' if levels else names[j]+PERIODS[t]
    out = []
    for e in range(len(names)):
        terms = []
        for m, t in ((reg.A, 1), (reg.B, 0), (reg.C, -1), (reg.E, None)):
            for j, v in enumerate(m[e]):
                if zero(v):
                    continue
                p = f'{pre}{"p" if t == 1 else "m" if t == -1 else "z" if t == 0 else "s"}{e}{j}'
                pars[p] = v
                terms.append(f'{p}*{shocks[j] if t is None else dev(j, t)}')
        if not zero(reg.D[e]):
            pars[f'{pre}d{e}'] = reg.D[e]
            terms.append(f'{pre}d{e}')
        if quad is not None:
            j, t = next((j, t) for m, t in ((reg.B, 0), (reg.C, -1), (reg.A, 1)) for j, v in enumerate(m[(e+1) % len(names)]) if not zero(v))
            terms.append(f'{dev(j, t)}^2' if quad == 'same' else f'{pre}d{e}*{dev(j, t)}^2' if not zero(reg.D[e]) else f'{terms[0].split("*")[0]}*{dev(j, t)}*{dev(0, 0)}')
        k = 1 if len(terms) > 1 and e % 2 else 0
        out.append(' + '.join(terms[k:]) + (' = 0' if not k else f' = -{terms[0]}'))
    return out


def dress(m, ss, first=None):
    """the model itself, its steady state and solution given"""
    m.__class__ = HModel
    m._h_ss, m._h_sigma, m._h_jac, m._h_hess, m._h_sol = _SS(ss), None, None, None, {}
    if first is not None:
        f = FirstOrderSolution(m)
        f.gy, f.gu = first
        m._h_sol[1] = f
        m._solution = f
    return m


def policy_arrays(ctx, m, gy, gu):
    """the declaration-order policy in the layout of the solver"""
    idx = m.indexes
    G, U = mat(ctx, [[gy[r][c] for c in idx.state] for r in idx.dr_order]), mat(ctx, [list(gu[r]) for r in idx.dr_order])
    return (G[:, 0] if G.shape[1] == 1 else G), (U[:, 0] if U.shape[1] == 1 else U)


def solvable(ctx, m, ss, gy, gu):
    """m and every copy of it: only the first-order solution and the steady state are given"""
    class Given(HModel):
        _h_rebuilt = True
        _h_ss, _h_sigma, _h_jac, _h_hess = _SS(ss), None, None, None

        def solve(self, order=0, constraint=[], *args, **kwargs):
            if constraint:
                return Model.solve(self, order, constraint, *args, **kwargs)
            f = FirstOrderSolution(self)
            f.gy, f.gu = policy_arrays(ctx, self, gy, gu)
            self._solution = f
            return f
    m.__class__ = Given
    return m


def models(ctx, regs, names, shocks, gy, gu, ss=None, extra={}, swap=True, quad=None, alt_ss=None):
    """one model per regime. only the reference has a solution"""
    pars = dict(extra)
    if ss is not None:
        pars.update({f's{v}': s for v, s in zip(names, ss)})
    texts = [text(ctx, r, names, shocks, f'k{i}', pars, ss is not None, quad) for i, r in enumerate(regs)]
    n = len(names)
    out = []
    for i, t in enumerate(texts):
        # parameters of the regimes may be declared in any order
        p = pars if not i or not swap else dict(reversed(list(pars.items())))
        m = make(names, shocks, p, t)
        s = mat(ctx, ss if ss is not None else [const(ctx, 0)]*n)
        if i:
            out.append(dress(m, s if alt_ss is None else mat(ctx, alt_ss)))
        else:
            first = policy_arrays(ctx, m, gy, gu)
            out.append(dress(m, s, first))
    return out, texts, pars


def expected(regs, which, gy, gu, prev, u):
    """path under the regimes which[0], which[1], ... after which the reference lasts forever; one row more than which"""
    n = len(prev)
    K = len(which)
    while K and which[K-1] == 0:
        K -= 1
    P, d = gy, None
    Ps, ds = [], []
    Q = mv(gu, u)
    for i in range(K-1, -1, -1):
        R = regs[which[i]]
        M = inverse(add(mm(R.A, P), R.B))
        c = R.D if d is None else add(mv(R.A, d), R.D)
        P, d = neg(mm(M, R.C)), neg(mv(M, c))
        Ps.insert(0, P)
        ds.insert(0, d)
        if i == 0:
            Q = neg(mv(M, mv(R.E, u)))
    ys, y = [], list(prev)
    for i in range(len(which)+1):
        y = add(mv(Ps[i], y), ds[i]) if i < K else mv(gy, y)
        if i == 0:
            y = add(y, Q)
        ys.append(y)
    return ys


# ------------------------------------------------------------------ logic over symbolic and float numbers
TOL = 1e-7


def close(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return alg._coerce(a) == alg._coerce(b)
    return bool(abs(a-b) <= TOL*(1+abs(b)))


class Cond:
    """left (op) right, on a path's row; exact when symbolic, a tolerance in favour of the code when not"""
    def __init__(self, op, left, right):
        self.op, self.left, self.right = op, left, right

    def _v(self, y):
        return self.left(y), self.right(y)

    def certain(self, y):
        """true beyond the tolerance"""
        a, b = self._v(y)
        if isinstance(a, Sym) or isinstance(b, Sym):
            a, b = alg._coerce(a), alg._coerce(b)
            return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[self.op]
        e = TOL*(1+abs(b))
        return bool(a < b-e) if self.op[0] == '<' else bool(a > b+e)


    def possible(self, y):
        """true within the tolerance"""
        a, b = self._v(y)
        if isinstance(a, Sym) or isinstance(b, Sym):
            return self.certain(y)
        e = TOL*(1+abs(b))
        return bool(a <= b+e) if self.op[0] == '<' else bool(a >= b-e)


def both(xs):
    return joined(xs, True, lambda a, b: a & b)


def either(xs):
    return joined(xs, False, lambda a, b: a | b)


def joined(xs, neutral, op):
    """a shallow tree, as the solver's terms are built recursively"""
    kept = []
    for x in xs:
        if isinstance(x, SymBool):
            kept.append(x)
        elif bool(x) is not neutral:
            return not neutral
    while len(kept) > 1:
        kept = [op(*kept[i:i+2]) if i+1 < len(kept) else kept[i] for i in range(0, len(kept), 2)]
    return kept[0] if kept else neutral


def no(x):
    return ~x if isinstance(x, SymBool) else not x


def agrees(which_bits, conds, ys):
    """which_bits[i] = tuple of flags, one per constraint; conds = [(bind, relax), ...]"""
    out = []
    for i, y in enumerate(ys):
        for c, (bind, relax) in enumerate(conds):
            on = which_bits[i][c] if i < len(which_bits) else False
            out.append(no(relax.certain(y)) if on else no(bind.certain(y)))
    return both(out)


def check(ctx, regs, index, conds, gy, gu, init, us, got, periods, warned):
    """index(flags) -> the regime in which those constraints bind"""
    prev = init
    S = len(us)
    if warned:
        # with nothing binding, ever, there is nothing to warn about
        p, quiet = init, []
        for u in us:
            ys = expected(regs, [0]*periods, gy, gu, p, u)
            quiet.append(both([no(bind.possible(y)) for y in ys for bind, _ in conds]))
            p = ys[0]
        ctx.true(no(both(quiet)), 'warned without a binding constraint')
        return
    flags = list(itertools.product((False, True), repeat=len(conds)))
    words = list(itertools.product(flags, repeat=periods))

    def holds(t, u, prev, words, regs=regs, gy=gy, gu=gu, conds=conds, got=got):
        options = []
        for w in words:
            ys = expected(regs, [index(f) for f in w], gy, gu, prev, u)
            eqs = [close(got[t][v], ys[0][v]) for v in range(len(prev))]
            if t == S-1:
                eqs += [close(got[t+k][v], ys[k][v]) for k in range(1, periods-S+1) for v in range(len(prev))]
            if any(e is False or e is np.False_ for e in eqs):
                continue
            options.append(both(eqs + [agrees(w, conds, ys)]))
        return either(options)

    # with many assignments, one that holds at some point of the path may well hold all along it
    val = point(ctx) if ctx.sym and len(words) > 12 else None
    if val is not None:
        at = dict(regs=[Regime(*[val(m) for m in (r.A, r.B, r.C, r.E, r.D)]) for r in regs], gy=val(gy), gu=val(gu), got=val([list(r) for r in got]),
                  conds=[tuple(Cond(c.op, c.left, lambda y, c=c: val(c.right(y))) for c in pair) for pair in conds])
    for t, u in enumerate(us):
        goal = None
        if val is not None:
            for w in words:
                if holds(t, val(u), val(list(prev)), [w], **at) is True:
                    goal = holds(t, u, prev, [w])
                    if isinstance(goal, SymBool) and ctx.feasible(no(goal)):
                        goal = None
                    break
        if goal is None or goal is False:
            goal = holds(t, u, prev, words)
        ctx.true(goal, f'period {t}: an expected path under regimes agreeing with the constraints')
        prev = got[t]


def point(ctx):
    """numbers in the place of symbols, at some point of the path taken so far"""
    pts = ctx.samples(1)
    if not pts:
        return None

    def val(x):
        if isinstance(x, (list, tuple, np.ndarray)):
            return [val(y) for y in x]
        return Fraction(x.eval(pts[0])) if isinstance(x, Sym) else Fraction(x)
    return val


class Warned:
    """did anything inside warn"""
    def __enter__(self):
        self.c = warnings.catch_warnings(record=True)
        self.log = self.c.__enter__()
        warnings.simplefilter('always')
        return self

    def __exit__(self, *a):
        self.c.__exit__(*a)

    def __bool__(self):
        return any(w.category in (UserWarning, RuntimeWarning) and ' encountered in ' not in str(w.message) for w in self.log)
