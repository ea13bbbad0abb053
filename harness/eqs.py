"""Small models whose equations are built from terms that are present or absent, with an
independent evaluation of every equation."""
import numpy as np
from .common import *
from symx.alg import Env
from pynare.core.model import Model
import pynare.core.generic as generic
import pynare.core.solve.statespace as statespace

PERIODS = {-1: '(-1)', 0: '', 1: '(+1)'}
# every non-empty set of periods
PATTERNS = [(0,), (-1, 0), (0, 1), (-1, 0, 1), (-1,), (1,), (-1, 1)]


class NoStateSpace:
    def __init__(self, model):
        self.model = model
        self.eigen = np.zeros(0)


class no_statespace:
    """models built inside do not compute their state space"""
    def __enter__(self):
        self.saved = [(d, k, d[k]) for d, k, _ in replace_fn(statespace.StateSpace, None)]
        for d, k, _ in self.saved:
            d[k] = NoStateSpace

    def __exit__(self, *a):
        for d, k, v in self.saved:
            d[k] = v


def exp(x):
    return x.exp() if isinstance(x, Sym) else np.exp(x)


def log(x):
    return x.log() if isinstance(x, Sym) else np.log(x)


def sqrt(x):
    return x.sqrt() if isinstance(x, Sym) else np.sqrt(x)


def sin(x):
    return x.sin() if isinstance(x, Sym) else np.sin(x)


def term(kind, x, y, p, q):
    """one term: its text and its value. x, y are (text, value) of two arguments, p, q of two parameters"""
    (xs, xv), (ys, yv), (ps, pv), (qs, qv) = x, y, p, q
    return [
        lambda: (f'+ {ps}*{xs}', pv*xv),
        lambda: (f'- {xs}/{ps}', -xv/pv),
        lambda: (f'+ ({xs} - {qs})^2', (xv-qv)*(xv-qv)),
        lambda: (f'- {qs}*{xs}*{ys}', -qv*xv*yv),
        lambda: (f'+ exp({ps}*{xs})', exp(pv*xv)),
        lambda: (f'+ 2.5*(-{xs})*{ps}', -2.5*xv*pv),
        lambda: (f'- ({xs}*{xs} + {ys})*{qs}', -(xv*xv+yv)*qv),
        lambda: (f'+ exp({qs})*{xs}', exp(qv)*xv),
        lambda: (f'- (-{ps})*{xs}', pv*xv),
        lambda: (f'+ +{xs}/{qs}^2*{ys}', xv/(qv*qv)*yv),
        lambda: (f'+ log(1 + {xs}^2)*{ps}', log(1+xv*xv)*pv),
        lambda: (f'- sqrt(2 + {xs}^2*{ys}^2)', -sqrt(2+xv*xv*yv*yv)),
        lambda: (f'+ {ps}*{xs}/(1 + {ys}^2)', pv*xv/(1+yv*yv)),
        lambda: (f'+ (1 + {xs}^2)^{ps}', (1+xv*xv)**pv),
        lambda: (f'- sin({xs})*{qs}', -sin(xv)*qv),
    ][kind % 15]()


def layout(patterns, n_eq, shift=0):
    """which equation holds which (variable, period, kind): every incidence at least once, some twice"""
    out = [[] for _ in range(n_eq)]
    for v, pat in enumerate(patterns):
        for t in pat:
            k = 3*v + t + 1 + shift
            out[(v + t + 1) % n_eq].append((v, t, k))
            if k % 3 == 0 and n_eq > 1:
                out[(v + t + 2) % n_eq].append((v, t, k+2))
    return out


def equations(patterns, names, shocks, pars, value, par, n_eq, linear=False, shift=0):
    """texts and values. value(v, t) of a variable, value(shock, None) of a shock, par(name) of a parameter"""
    texts, vals = [], []
    inc = [(v, t) for v, pat in enumerate(patterns) for t in pat]
    for e, terms in enumerate(layout(patterns, n_eq, shift)):
        ls, lv, rs, rv = '', 0*par(pars[0]), '', 0*par(pars[0])
        arg = lambda v, t: (names[v]+PERIODS[t], value(v, t))
        P = lambda i: (pars[i % len(pars)], par(pars[i % len(pars)]))
        for i, (v, t, k) in enumerate(terms):
            other = inc[(inc.index((v, t)) + 1 + e) % len(inc)]
            s, x = term(0 if linear else k, arg(v, t), arg(*other), P(e+i), P(e+i+1))
            if i % 2:
                rs, rv = rs + ' ' + s, rv + x
            else:
                ls, lv = ls + ' ' + s, lv + x
        for j, sh in enumerate(shocks):
            if (e + j) % 2 == 0 or n_eq == 1:
                s, x = term((0 if linear else e+j), (sh, value(sh, None)), (sh, value(sh, None)), P(e+j), P(e+j+1))
                rs, rv = rs + ' ' + s, rv + x
        ls, rs = ls.strip() or P(0)[0], rs.strip() or '0'
        if ls == P(0)[0]:
            lv = P(0)[1]
        clean = lambda z: z[2:] if z.startswith('+ ') else z
        texts.append(f'{clean(ls)} = {clean(rs)}')
        vals.append(lv - rv)
    return texts, vals


def incidence(patterns):
    """columns by definition: lagged, current, led variables in declaration order"""
    return [(v, t) for t in (-1, 0, 1) for v, pat in enumerate(patterns) if t in pat]


def make(names, shocks, params, exprs, **kw):
    with no_statespace():
        return Model(endog=list(names), stoch=list(shocks), params=dict(params), exprs=list(exprs),
                     shocks={s: {'variance': 1.0} for s in shocks}, initial={}, name='h', **kw)


# ------------------------------------------------------------------ derivatives
def exact_derivative(f, argnum=0):
    """contract of autograd's grad/jacobian: the exact derivative of f at x"""
    def d(*args):
        x = np.asarray(args[argnum], dtype=object).ravel()
        ids = [alg.STORE.new(f'd!{len(alg.STORE.vars)}', kind='fresh') for _ in x]
        new = list(args)
        new[argnum] = shim.lift([Sym.var(v) for v in ids])
        y = np.asarray(f(*new), dtype=object)
        env = {v.id: alg._coerce(a) for v, a in zip(ids, x)}
        out = np.empty(y.shape + (len(ids),), dtype=object)
        for i in np.ndindex(*y.shape):
            e = alg._coerce(y[i])
            for j, v in enumerate(ids):
                out[i + (j,)] = alg.subst(alg.diff(e, v.id), env)
        return shim.lift(out)
    return d


def derivative_stubs(_=None):
    import autograd
    return replace_fn(autograd.grad, exact_derivative) + replace_fn(autograd.jacobian, exact_derivative)


def oracle(ctx, n, fun, point):
    """first and second derivatives of fun(list of n variables) -> list, at the point"""
    ids = [alg.STORE.new(f'o!{len(alg.STORE.vars)}', kind='fresh') for _ in range(n)]
    ys = [alg._coerce(y) for y in fun([Sym.var(v) for v in ids])]
    if ctx.sym:
        env = {v.id: alg._coerce(a) for v, a in zip(ids, point)}
        at = lambda s: alg.subst(s, env)
    else:
        at = lambda s: float(s.eval(Env({v.id: float(a) for v, a in zip(ids, point)})))
    d1 = [[alg.diff(y, v.id) for v in ids] for y in ys]
    return ([[at(g) for g in r] for r in d1],
            [[[at(alg.diff(g, v.id)) for v in ids] for g in r] for r in d1])
