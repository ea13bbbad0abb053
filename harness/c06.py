"""C06: the Jacobian and Hessian hold the model's derivatives at the steady state, column by column."""
import numpy as np
from .common import *
from .eqs import *
from .models import _SS
from .c04 import NAMES, params
from pynare.core.model import Model

PROPERTY = 'C06'
BOUNDS = ('symbolic steady state and parameters; every set of periods for each of up to 2 (thorough 3) variables, 0 to 2 shocks, up to 3 '
          'equations built from fifteen forms of term; all first and second derivatives')
ASSUMPTIONS = ["autograd's grad and jacobian return exact derivatives", 'exp, log, sqrt, sin and real powers are uninterpreted with their '
               'derivative rules', 'the steady state is a given vector (C09)']


class SSModel(Model):
    @property
    def ss(self):
        return self._h_ss


def h_jac(ctx, nv, ne, pool, n_eq, shift, hess):
    names, shocks, pars = NAMES[pool]
    names, shocks = names[:nv], shocks[:ne]
    patterns = [ctx.choice(f'periods{v}', PATTERNS) for v in range(nv)]
    inc = incidence(patterns)
    pv = params(ctx, pars)
    ss = [ctx.real(f'ss{v}', pref=Q(v+2, 3)) for v in range(nv)]

    def build(X):
        pos = {x: i for i, x in enumerate(inc)}
        pos.update({(s, None): len(inc)+j for j, s in enumerate(shocks)})
        return equations(patterns, names, shocks, pars, lambda v, t: X[pos[v, t]], lambda p: pv[p], n_eq, shift=shift)

    n = len(inc) + ne
    texts = build([const(ctx, 1)]*n)[0]
    M = make(names, shocks, pv, texts)
    M.__class__ = SSModel
    M._h_ss = _SS(mat(ctx, ss))
    point = [ss[v] for v, t in inc] + [const(ctx, 0)]*ne
    d1, d2 = oracle(ctx, n, lambda X: build(X)[1], point)
    J = M.jacobian.array
    ctx.same(np.shape(J), (n_eq, n), 'shape of the Jacobian')
    for e in range(n_eq):
        for i in range(n):
            ctx.eq(J[e, i], d1[e][i], f'derivative of {texts[e]} by {(inc + shocks)[i]}')
    if hess:
        H = M.hessian.array
        ctx.same(np.shape(H), (n_eq, n*n), 'shape of the Hessian')
        for e in range(n_eq):
            for i in range(n):
                for j in range(n):
                    ctx.eq(H[e, i*n+j], d2[e][i][j], f'second derivative of {texts[e]} by {(inc + shocks)[i]}, {(inc + shocks)[j]}')

    # steady Jacobian
    def steady(X):
        val = lambda v, t: X[v] if t is not None else 0*X[0]
        return equations(patterns, names, shocks, pars, val, lambda p: pv[p], n_eq, shift=shift)[1]
    s1, _ = oracle(ctx, nv, steady, ss)
    S = M.steady_repr.jacobian.array
    ctx.same(np.shape(S), (n_eq, nv), 'shape of the steady Jacobian')
    for e in range(n_eq):
        for i in range(nv):
            ctx.eq(S[e, i], s1[e][i], f'steady derivative of {texts[e]} by {names[i]}')


def cases(tier):
    out = []
    quick = tier == 'quick'
    P = patch_all(extra=derivative_stubs)
    grid = [('plain', 1, 1, 1, s) for s in (0, 6, 11)] + [('suffix', 2, 1, 2, s) for s in (0, 5, 10)] + [('order', 2, 2, 3, 3), ('prefix', 1, 2, 2, 8)]
    if not quick:
        grid += [('order', 3, 1, 2, s) for s in (0, 7)] + [('plain', 2, 0, 2, s) for s in range(1, 15, 3)] + [('suffix', 2, 2, 2, s) for s in range(0, 15, 2)]
    for pool, nv, ne, n_eq, shift in grid:
        out.append(dict(name=f'{pool}-{nv}-{ne}-{n_eq}-{shift}', fn=h_jac, weight=8**nv*n_eq, patch=P, opts=dict(max_paths=2000),
                        params=dict(nv=nv, ne=ne, pool=pool, n_eq=n_eq, shift=shift, hess=True)))
    return out
