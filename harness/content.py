"""What a model is made of, the model built from it, and the comparison of a model with one built from scratch (C19, C23)."""
import copy, types
import numpy as np
from .common import *
from .eqs import exp, sqrt, replace_fn, PERIODS
from .models import _SS
from pynare.core.model import Model
import pynare.core.solve.statespace as statespace

POOL = ['x', 'y', 'z', 'x1']
ATTRS = ['dr_order', 'dc_order', 'state', 'forward', 'backward', 'static', 'mixed', 'pure_forward', 'pure_backward', 'cont', 'exogenous_jacobian']
COUNTS = ['n_endog', 'n_exog', 'n_static', 'n_state', 'n_forward', 'n_backward', 'n_mixed', 'n_endog_inc']


def equation(kind, v, o, s):
    """text and residual of an equation of v, with another variable and a shock"""
    return {
        'ar': (f'{v} = a*{v}(-1) + b*{o}^2 + {s}', lambda g, p: g(v, 0) - (p('a')*g(v, -1) + p('b')*g(o, 0)*g(o, 0) + g(s))),
        'fw': (f'{v} + c*{o}(+1) = exp(a*{o}(-1)) - {s}*{s}', lambda g, p: g(v, 0) + p('c')*g(o, 1) - (exp(p('a')*g(o, -1)) - g(s)*g(s))),
        'st': (f'{v} = a + b*{o}*{v}', lambda g, p: g(v, 0) - (p('a') + p('b')*g(o, 0)*g(v, 0))),
        'loc': (f'{v} - l*{o}(-1) = -m*{v}(+1);', lambda g, p: g(v, 0) - p('l')*g(o, -1) + p('m')*g(v, 1)),
        'mix': (f'{v}*{o}(-1) = {v}(+1) - c*{s}', lambda g, p: g(v, 0)*g(o, -1) - (g(v, 1) - p('c')*g(s))),
    }[kind]


USES = {'ar': [('v', -1), ('v', 0), ('o', 0)], 'fw': [('v', 0), ('o', -1), ('o', 1)], 'st': [('v', 0), ('o', 0)],
        'loc': [('v', 0), ('v', 1), ('o', -1)], 'mix': [('v', 0), ('v', 1), ('o', -1)]}


class Content:
    def __init__(self, names, shocks, pars, local, eqs):
        self.names, self.shocks, self.pars, self.local, self.eqs = list(names), list(shocks), dict(pars), dict(local), list(eqs)
        self.defs = {}
        self.local_defs = {}
        self.var, self.cov, self.corr = {}, {}, {}
        self.initial, self.terminal, self.historical = {}, {}, {}
        self.determ = {}

    def copy(self):
        return copy.copy(self)._own()

    def _own(self):
        for k, v in self.__dict__.items():
            if isinstance(v, (list, dict)):
                self.__dict__[k] = v.copy()
        return self

    def shock_dict(self):
        out = {}
        for s, v in self.var.items():
            out[s] = {'variance': v}
        for kind, d in (('cov', self.cov), ('corr', self.corr)):
            for (s, t), v in d.items():
                out.setdefault(s, {}).setdefault(kind, {})[t] = v
        for s, (p, v) in self.determ.items():
            out[s] = {'periods': list(p), 'values': list(v)}
        return out

    def parameters(self):
        return {**self.pars, **self.defs}

    def local_parameters(self):
        return {**self.local, **self.local_defs}

    def value(self, p):
        """of a parameter; the definitions are products of two others"""
        for vals, defs in ((self.pars, self.defs), (self.local, self.local_defs)):
            if p in defs:
                l, r = defs[p].split('*')
                return self.value(l)*self.value(r)
            if p in vals:
                return vals[p]
        raise KeyError(p)

    def build(self, cls, fn=None):
        return cls(endog=list(self.names), stoch=list(self.shocks), determ=list(self.determ), params=self.parameters(), shocks=self.shock_dict(),
                   exprs=[equation(*e)[0] for e in self.eqs], local_params=self.local_parameters(), initial=dict(self.initial),
                   terminal=dict(self.terminal), historical=dict(self.historical), name='h')

    def periods(self):
        out = {v: set() for v in self.names}
        for k, v, o, s in self.eqs:
            for w, t in USES[k]:
                out[v if w == 'v' else o].add(t)
        return out

    def incidence(self):
        ps = self.periods()
        return [(v, t) for t in (-1, 0, 1) for v in self.names if t in ps[v]]

    def sigma(self):
        s = {(i, j): self.var.get(i, 1.0) if i == j else 0.0 for i in self.shocks for j in self.shocks}
        for d, f in ((self.corr, lambda i, j, v: v*sqrt(s[i, i]*s[j, j])), (self.cov, lambda i, j, v: v)):
            for (i, j), v in d.items():
                s[i, j] = s[j, i] = f(i, j, v)
        return s


class Kept:
    """stands for the state space, and for a solution: what the model's derivatives were when it was made"""
    def __init__(self, model, order=None):
        self.model = model
        self.order = order
        self.lower_solution = self if order != 2 else Kept(model, 1)
        self.values = model.jacobian.array
        self.eigen = np.zeros(0)


class kept_statespace:
    def __enter__(self):
        self.saved = [(d, k, d[k]) for d, k, _ in replace_fn(statespace.StateSpace, None)]
        for d, k, _ in self.saved:
            d[k] = Kept

    def __exit__(self, *a):
        for d, k, v in self.saved:
            d[k] = v


def model_class(ctx):
    """models whose steady state is given by name"""
    at = {v: ctx.real('ss_'+v, pref=Q(i+2, 3)) for i, v in enumerate(POOL)}

    class Given(Model):
        @property
        def ss(self):
            return _SS(mat(ctx, [at[v] for v in self.endog.names]))

        def solve(self, order=0, *a, **k):
            self._solution = Kept(self, order or 2)
            return self._solution
    return Given


def points(ctx, shocks=('e', 'u', 'v')):
    pt = {(v, t): ctx.real(f'pt_{v}{t+1}', pref=Q(i+t+4, 3)) for i, v in enumerate(POOL) for t in (-1, 0, 1)}
    pt.update({s: ctx.real('pt_'+s, pref=Q(j+1, 4)) for j, s in enumerate(shocks)})
    return pt


def read(M):
    """look at everything derived"""
    M.solve(order=1)
    return M.dynamic_repr, M.steady_repr, M.indexes, M.sigma, M.jacobian.array, M.statespace, M.solution, M.initial, M.first_order_solution


def compare(ctx, M, c, cls, pt, where='', deep=True):
    """M is what the content says, and what a model built from it is"""
    W = where and where + ': '
    F = c.build(cls)
    n, m = len(c.names), len(c.shocks)
    ctx.same(list(M.endog.names), list(c.names), W+'endogenous')
    ctx.same([v.name for v in M.endog], list(c.names), W+'endogenous variables')
    ctx.same(list(M.stoch.names) if m else list(M.stoch), list(c.shocks), W+'shocks')
    ctx.same(list(M.determ.names) if c.determ else list(M.determ), list(c.determ), W+'deterministic')
    ctx.same([v.name for v in M.exog], list(c.shocks) + list(c.determ), W+'exogenous')
    for d in M.determ:
        ctx.same((d.periods, d.values), c.determ[d.name], W+'deterministic path')
    for have, want, what in ((M.params, c.parameters(), 'parameters'), (M.local_params, c.local_parameters(), 'local parameters')):
        ctx.same(sorted(have), sorted(want), W+what)
        for k in want:
            ctx.eq(have[k], c.value(k), f'{W}{what}: {k}')
    # the solution kept is the one of this model
    sol = M.solution
    if not len(M.exprs) == len(c.eqs):
        ctx.fail(W+'number of equations')
        return
    per = c.periods()
    for v in M.endog:
        ctx.same(sorted(v.lead_lag), sorted(per[v.name]), f'{W}periods of {v.name}')
        for k in ('initial', 'terminal', 'historical'):
            want = getattr(c, k).get(v.name, 0 if k == 'initial' else None)
            got = getattr(v, k)
            if want is None or got is None:
                ctx.same(got, want, f'{W}{k} of {v.name}')
            else:
                ctx.eq(got, want, f'{W}{k} of {v.name}')
    for i, v in enumerate(c.names):
        ctx.eq(M.initial[i], c.initial.get(v, 0), f'{W}initial values, {v}')
    for a in ATTRS:
        ctx.same([int(i) for i in getattr(M.indexes, a)], [int(i) for i in getattr(F.indexes, a)], f'{W}indexes.{a}')
    for a in COUNTS:
        ctx.same(int(getattr(M.indexes, a)), int(getattr(F.indexes, a)), f'{W}indexes.{a}')
    for a in ('state', 'static', 'forward'):
        ctx.same(list(getattr(M, a+'_vars').names), list(getattr(F, a+'_vars').names), f'{W}{a} variables')
    inc = c.incidence()
    x = mat(ctx, [pt[i] for i in inc] + [pt[s] for s in c.shocks])
    got = M.dynamic_repr(x)
    g = lambda v, t=None: pt[v] if t is None else pt[v, t]
    for i, e in enumerate(c.eqs):
        ctx.eq(got[i], equation(*e)[1](g, c.value), f'{W}residual {i}')
    ys = mat(ctx, [pt[v, 0] for v in c.names])
    got = M.steady_repr(ys)
    g = lambda v, t=None: const(ctx, 0) if t is None else pt[v, 0]
    for i, e in enumerate(c.eqs):
        ctx.eq(got[i], equation(*e)[1](g, c.value), f'{W}steady residual {i}')
    S = c.sigma()
    got = M.sigma
    ctx.same(tuple(np.shape(got)), (m, m), W+'shape of the covariance')
    for i, s in enumerate(c.shocks):
        for j, t in enumerate(c.shocks):
            ctx.eq(got[i, j], S[s, t], f'{W}covariance of {s}, {t}')
    J = F.jacobian.array
    pairs = [('Jacobian', M.jacobian.array, J), ('solution', sol.values, J), ('first solution', M.first_order_solution.values, J)]
    if deep:
        pairs += [('steady Jacobian', M.steady_repr.jacobian.array, F.steady_repr.jacobian.array), ('state space', M.statespace.values, J)]
    for what, a, b in pairs:
        ctx.same(tuple(np.shape(a)), tuple(np.shape(b)), f'{W}{what}: shape')
        for i in np.ndindex(*np.shape(b)):
            ctx.eq(a[i], b[i], f'{W}{what} {i}')
