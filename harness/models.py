"""Small models of a given structure, built by the real library, with parts overridden.

A structure is a string of variable kinds in declaration order: s(tatic), b(ackward), m(ixed),
f(orward).  `base(struct, ne)` builds the real numeric model once per process (unpatched);
`hmodel(...)` makes a copy whose derived quantities (steady state, covariance, policy arrays,
Jacobian, ...) are replaced by the arrays given, so that the code under test computes with them.
"""
import copy, functools, types, warnings
import numpy as np
import pynare
from pynare.core.model import Model
from pynare.core.generic import DynamicModel
from pynare.core.solve import default_order
from pynare.core.solve.first_order import FirstOrderSolution
from pynare.core.solve.second_order import SecondOrderSolution


def names(struct):
    # names whose alphabetical order is not the declaration order
    pool = ['q', 'c', 'z', 'k', 'w', 'd', 'n', 'a']
    return pool[:len(struct)]


def stochs(ne):
    return ['u', 'e', 'v'][:ne]


def dr_order(struct):
    """declaration indices in decision-rule order, from the definition of the classes"""
    return [i for kind in 'sbmf' for i, k in enumerate(struct) if k.lower() == kind]


def states(struct):
    """declaration indices of the variables with a lag, in decision-rule order"""
    return [i for i in dr_order(struct) if struct[i].lower() in 'bm']


def equations(struct, ne, nonlinear=True):
    nm, sh = names(struct), stochs(ne)
    eqs = []
    n = len(struct)
    if struct.lower() != struct:
        # upper case: the variable does not appear at time t. every equation has every term
        for e in range(n):
            t = ''
            for i, k in enumerate(struct):
                own = 5 if i == e else 0
                if k.islower():
                    t += f' + {1+own+0.1*((3*i+5*e) % 7):.1f}*{nm[i]}'
                if k.lower() in 'bm':
                    t += f' - {0.3+0.2*own+0.1*((2*i+3*e) % 5):.1f}*{nm[i]}(-1)'
                if k.lower() in 'mf':
                    t += f' + {0.2+(own if k.isupper() else 0)+0.1*((i+2*e) % 3):.1f}*{nm[i]}(+1)'
            for j, s in enumerate(sh):
                t += f' + {0.3+0.1*((e+2*j) % 3):.1f}*{s}'
            eqs.append(t[3:])
        return eqs
    for i, k in enumerate(struct):
        v = nm[i]
        rhs = {'b': f'{0.5-0.1*i:.2f}*{v}(-1)', 'm': f'0.3*{v}(-1) + 0.2*{v}(+1)',
               'f': f'{0.4-0.05*i:.2f}*{v}(+1)', 's': '0'}[k]
        o = nm[(i+1) % n]
        if n > 1:
            rhs += f' + {0.1+0.02*i:.2f}*{o}'
        if nonlinear:
            st = [j for j in range(n) if struct[j] in 'bm']
            if st:
                a = nm[st[i % len(st)]]
                rhs += f' + 0.1*{a}(-1)^2'
            if ne:
                rhs += f' + 0.05*{sh[0]}^2'
        for j, s in enumerate(sh):
            rhs += f' + {0.3+0.1*((i+2*j) % 3):.1f}*{s}'
        eqs.append(f'{v} = {rhs}')
    return eqs


@functools.lru_cache(maxsize=None)
def base(struct, ne, nonlinear=True):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        m = Model(endog=names(struct), stoch=stochs(ne), exprs=equations(struct, ne, nonlinear),
                  params={}, shocks={s: {'variance': 1.0} for s in stochs(ne)},
                  initial={}, name='h')
        m.sigma
        return m


@functools.lru_cache(maxsize=None)
def shapes(struct, ne, order):
    """array shapes the real solver gives for this structure"""
    m = base(struct, ne)
    if struct.lower() != struct:
        # the numbers of the base model need not be determinate: vectors for a single column
        n, ns = len(struct), len(states(struct))
        w = dict(gy=ns, gu=ne) if order == 1 else dict(ghxx=ns*ns, ghxu=ns*ne, ghuu=ne*ne, del2=1)
        return {a: (n,) if c == 1 else (n, c) for a, c in w.items()}
    sol = copy.copy(m).solve(order=order)
    return {a: np.shape(getattr(sol, a)) for a in sol.__arrays__}


class _Given(DynamicModel):
    """the representations of a model with given arrays are never rebuilt"""
    _h_rebuilt = False

    def update(self, *a, **k):
        if self._h_rebuilt:
            super().update(*a, **k)
        self.is_altered = False


class HModel(Model, _Given):
    # Model.update is the real one, followed by _Given.update
    def solve(self, order=0, *a, **k):
        # no order: the default one. a model given only one solution has no other
        order = order or default_order
        self._solution = self._h_sol[order if order in self._h_sol else max(self._h_sol)]
        return self._solution

    @property
    def ss(self):
        return self._h_ss if self._h_ss is not None else Model.ss.fget(self)

    @property
    def sigma(self):
        return self._h_sigma if self._h_sigma is not None else self._sigma

    @property
    def jacobian(self):
        return self._h_jac if self._h_jac is not None else Model.jacobian.fget(self)

    @property
    def hessian(self):
        return self._h_hess if self._h_hess is not None else Model.hessian.fget(self)


class _SS:
    def __init__(self, values):
        self.values = values
        self.results = types.SimpleNamespace(x=values)
    def compute(self, *a, **k):
        return self.values


def hmodel(m, ss=None, sigma=None, jac=None, hess=None, first=None, second=None, order=None):
    o = copy.copy(m)
    o.__class__ = HModel
    o.is_altered = False
    o._h_ss = _SS(ss) if ss is not None else None
    o._h_sigma = sigma
    if sigma is not None:
        o._sigma = sigma
    o._h_jac = types.SimpleNamespace(array=jac) if jac is not None else None
    o._h_hess = types.SimpleNamespace(array=hess) if hess is not None else None
    o._h_sol = {}
    if first is not None:
        f = FirstOrderSolution(o)
        f.gy, f.gu = first
        o._h_sol[1] = f
        o._solution = f
    if second is not None:
        s = object.__new__(SecondOrderSolution)
        super(SecondOrderSolution, s).__init__(o)
        s.lower_solution = o._h_sol[1]
        s.ghxx, s.ghxu, s.ghuu, s.del2 = second
        o._h_sol[2] = s
        o._solution = s
    if order:
        o._solution = o._h_sol[order]
    # the state space belongs to the model it is built from
    sp = copy.copy(m._statespace)
    sp.model = o
    sp.is_verified = True
    for k in ('sigma', 'kalman_transition'):
        sp.__dict__.pop(k, None)
    o._statespace = sp
    return o
