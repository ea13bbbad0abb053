"""C24: the Kalman filter computes the Gaussian likelihood recursion."""
import types
import numpy as np
import pandas as pd
from .common import *
from .models import *
from .content import Content, equation, compare, model_class, points, kept_statespace, read, ATTRS
from .eqs import derivative_stubs
from .models import _SS as models_SS
from pynare.stats import filters as fl
from pynare.stats.observation import ObservedModel

PROPERTY = 'C24'
BOUNDS = ('symbolic transition, loading and covariance matrices, initial conditions and data: up to 2 states, 2 observed series and '
          '3 periods (thorough 3 states, 4 periods), every first period counted; observed series picked out of the states in every order; '
          'data matching: up to 4 series in every column order, two periods, labelled or not, right and wrong names and numbers of columns; '
          'observed models of two variables, two shocks and up to three observed series, before and after a change of parameters')
ASSUMPTIONS = ['scipy.linalg.solve, lapack dpotrf and dpotri give the exact solution, Cholesky factor and inverse',
               'scipy.linalg.solve_discrete_lyapunov(a, q) returns the symmetric X with a X a\' - X + q = 0',
               'log is an uninterpreted function of its argument; forecast covariances are positive definite',
               'the solution of an observed model is given: the library refuses (NotImplementedError) to compute it for models in general']


def sym_pd(ctx, name, n):
    """a positive definite matrix L L'"""
    L = zeros(ctx, n, n)
    for i in range(n):
        for j in range(i):
            L[i, j] = ctx.real(f'{name}{i}{j}', lo=-2, hi=2)
        L[i, i] = ctx.real(f'{name}{i}{i}', lo=Q(1, 4), hi=2)
    return np.dot(L, L.T)


def mul(*ms):
    r = ms[0]
    for m in ms[1:]:
        r = np.dot(r, m)
    return r


def inv(F):
    k = len(F)
    if k == 1:
        d = F[0, 0]
        return d, np.array([[1/d]], dtype=object if isinstance(d, Sym) else float)
    d = F[0, 0]*F[1, 1] - F[0, 1]*F[1, 0]
    return d, np.array([[F[1, 1]/d, -F[0, 1]/d], [-F[1, 0]/d, F[0, 0]/d]], dtype=object if isinstance(d, Sym) else float)


def log(ctx, x):
    return x.log() if ctx.sym and isinstance(x, Sym) else math.log(float(x))


def reference(ctx, data, x, P, T, Qm, Z, start=0):
    """the textbook recursion"""
    out = 0
    k = data.shape[1]
    for t in range(len(data)):
        v = data[t] - mul(Z, x)
        F = mul(Z, P, Z.T)
        d, Fi = inv(F)
        ctx.assume(d > Q(1, 64) if ctx.sym else d > 0)
        if k == 2:
            ctx.assume(F[0, 0] > Q(1, 64) if ctx.sym else F[0, 0] > 0)
        if t >= start:
            out = out - (k*log2pi(ctx) + log(ctx, d) + mul(v, Fi, v))*const(ctx, Q(1, 2))
        x, P = x + mul(P, Z.T, Fi, v), P - mul(P, Z.T, Fi, Z, P)
        x, P = mul(T, x), mul(T, P, T.T) + Qm
    return out


def log2pi(ctx):
    return const(ctx, Fraction(float(np.log(2*np.pi))))


def matrices(ctx, n, k, small):
    if small:
        T = carr(ctx, [[Q(1, 2), Q(-1, 4)], [Q(1, 3), Q(2, 3)]]) if n == 2 else carr(ctx, [[Q(2, 3)]])
        Z = carr(ctx, [[1, Q(1, 2)], [-1, 2]])[:k, :n]
    else:
        T, Z = ctx.reals('T', (n, n)), ctx.reals('Z', (k, n))
    return T, Z


def h_llk(ctx, n, k, periods, small=False, start=None):
    T, Z = matrices(ctx, n, k, small)
    P, Qm = sym_pd(ctx, 'P', n), sym_pd(ctx, 'Q', n)
    x, data = ctx.reals('x', (n,)), ctx.reals('y', (periods, k))
    s = start if start is not None else ctx.choice('start', range(periods+1))
    want = reference(ctx, data, x, P, T, Qm, Z, s)
    keep = [np.array(a, copy=True) for a in (data, x, P)]
    got = fl._kalman_filter_loglikelihood(data=data, x0=x, P0=P, T=T, R=eye(ctx, n), Q=Qm, Z=Z, **({} if s == 0 else {'start': s}))
    ctx.eq(got, want, 'log likelihood')
    for a, b, w in zip((data, x, P), keep, ('data', 'initial state', 'initial covariance')):
        ctx.eq(a, b, f'{w} left alone')


def h_sel(ctx, n, locs, periods, small=False):
    T, _ = matrices(ctx, n, 1, small)
    P, Qm = sym_pd(ctx, 'P', n), sym_pd(ctx, 'Q', n)
    x, data = ctx.reals('x', (n,)), ctx.reals('y', (periods, len(locs)))
    Z = zeros(ctx, len(locs), n)
    for i, l in enumerate(locs):
        Z[i, l] = const(ctx, 1)
    want = reference(ctx, data, x, P, T, Qm, Z)
    got = fl._simple_kalman_transition_selection(data=data, x0=x, P0=P, T=T, Q=Qm, locs=np.array(locs))
    ctx.eq(got, want, 'log likelihood')


def h_loglike(ctx, periods):
    """a filter whose model has the given solution: initial state, covariance of the innovations"""
    n, ne = 1, 2
    T, R, Z = ctx.reals('T', (n, n), lo=Q(-9, 10), hi=Q(9, 10)), ctx.reals('R', (n, ne)), ctx.reals('Z', (1, n))
    S = sym_pd(ctx, 'S', ne)
    data = ctx.reals('y', (periods, 1))
    f = fl.KalmanFilter.__new__(fl.KalmanFilter)
    f.model = types.SimpleNamespace(solution=types.SimpleNamespace(arrays=(T, R, Z)), sigma=S)
    f.data, f.init = data, ''
    Qm = mul(R, S, R.T)
    P = Qm/(1 - T[0, 0]*T[0, 0])
    want = reference(ctx, data, zeros(ctx, n), P, T, Qm, Z)
    ctx.eq(f.loglike(), want, 'log likelihood')


def _exact_lyap(a, q, method=None):
    a, q = shim.lift(a), shim.lift(q)
    return q/(1 - a[0, 0]*a[0, 0]) if a.shape == (1, 1) else None


def h_data(ctx, k, labelled):
    """columns are matched to the observed variables by name"""
    names = [f'o{i}' for i in range(k)]
    m = ObservedModel.__new__(ObservedModel)
    m.obs = fl_endog(names)
    bad = ctx.choice('bad', ('none', 'name', 'number'))
    cols = list(names)
    order = []
    for i in range(k):
        order.append(cols.pop(ctx.choice(f'c{i}', range(len(cols))) if len(cols) > 1 else 0))
    width = k + (1 if bad == 'number' else 0)
    data = ctx.reals('y', (2, width))
    lab = order + (['z'] if bad == 'number' else [])
    if bad == 'name':
        lab[-1] = 'z'
    given = pd.DataFrame(data if not ctx.sym else np.asarray(data), columns=lab) if labelled else data
    if labelled == 'series':
        given = pd.Series(list(data[:, 0]), name=lab[0]) if width == 1 else given
    if bad == 'number' or (bad == 'name' and labelled):
        try:
            f = fl.ModelFilter(model=m, data=given)
        except (ValueError, NameError):
            ctx.true(True, 'rejected')
        else:
            ctx.fail('data that do not match the observed variables were accepted')
        return
    f = fl.ModelFilter(model=m, data=given)
    want = data[:, [lab.index(o) for o in names]] if labelled else data
    got = np.asarray(f.data)
    ctx.same(got.shape, want.shape, 'shape of the data')
    if got.shape == want.shape:
        ctx.eq(shim.lift(got) if ctx.sym else got, want, 'columns in the order of the observed variables')


OBS = {'o1': ('x + l', lambda g, p: g('x', 0) + p('l')), 'o2': ('2*y - a*x', lambda g, p: 2*g('y', 0) - p('a')*g('x', 0)),
       'o3': ('x - x(-1)', lambda g, p: g('x', 0) - g('x', -1))}


def h_observed(ctx, edit):
    """the observed model: the given one with a variable and an equation for every observed series"""
    pt = points(ctx)
    pt.update({(o, t): ctx.real(f'pt_{o}{t+1}', pref=Q(i+2, 5)) for i, o in enumerate(OBS) for t in (-1, 0, 1)})
    with kept_statespace():
        pars = {p: ctx.real('p_'+p, pref=Q(i+2, 5)) for i, p in enumerate('abc')}
        c = Content(['x', 'y'], ['e', 'u'], pars, {'l': ctx.real('p_l', pref=Q(3, 2)), 'm': ctx.real('p_m', pref=Q(1, 7))},
                    [('ar', 'x', 'y', 'e'), ('loc', 'y', 'x', 'u')])
        c.initial = {'y': ctx.real('init_y', pref=2)}
        c.historical = {'x': ctx.real('hist_x', pref=3)}
        c.var, c.cov = {'e': ctx.real('var_e', lo=0, pref=Q(5, 2))}, {('e', 'u'): ctx.real('cov_eu', pref=Q(1, 3))}
        cls = model_class(ctx)
        M = c.build(cls)
        if ctx.flag('read'):
            read(M)
        obs = ctx.choice('obs', (('o1',), ('o2', 'o1'), ('o3', 'o2'), ('o1', 'o2', 'o3')))
        at = {o: ctx.real('ss_'+o, pref=Q(i+3, 4)) for i, o in enumerate(OBS)}

        class Given(ObservedModel):
            @property
            def ss(self):
                still = dict(zip(M.endog.names, M.ss.values))
                return models_SS(mat(ctx, [still.get(v, at.get(v)) for v in self.endog.names]))
        O = Given(M, {o: OBS[o][0] for o in obs})
        who, cO = M, c.copy()
        if edit:
            v = ctx.real('new_a', pref=Q(7, 3))
            who = ctx.choice('who', (M, O))
            who.add_params(a=v, **({'b': 'a*c'} if edit == 'two' else {}))
            k = c if who is M else cO
            k.pars['a'] = v
            if edit == 'two':
                k.pars.pop('b')
                k.defs['b'] = 'a*c'
        compare(ctx, M, c, cls, pt, 'the model')
        c = cO
        names = c.names + list(obs)
        ctx.same(list(O.obs.names), list(obs), 'observed variables')
        ctx.same(list(O.endog.names), names, 'endogenous')
        ctx.same(list(O.stoch.names), c.shocks, 'shocks')
        for have, want in ((O.params, c.parameters()), (O.local_params, c.local_parameters())):
            ctx.same(sorted(have), sorted(want), 'parameters')
            for k in want:
                ctx.eq(have[k], c.value(k), f'parameter {k}')
        S = c.sigma()
        for i, a in enumerate(c.shocks):
            for j, b in enumerate(c.shocks):
                ctx.eq(O.sigma[i, j], S[a, b], f'covariance of {a}, {b}')
        per = {**c.periods(), **{o: {0} for o in obs}}
        per['x'] = per['x'] | ({-1, 0} if 'o3' in obs else set())
        for v in O.endog:
            ctx.same(sorted(v.lead_lag), sorted(per[v.name]), f'periods of {v.name}')
        for i, v in enumerate(names):
            ctx.eq(O.initial[i], c.initial.get(v, 0), f'initial value of {v}')
        inc = [(v, t) for t in (-1, 0, 1) for v in names if t in per[v]]
        got = O.dynamic_repr(mat(ctx, [pt[i] for i in inc] + [pt[s] for s in c.shocks]))
        g = lambda v, t=None: pt[v] if t is None else pt[v, t]
        s = lambda v, t=None: const(ctx, 0) if t is None else pt[v, 0]
        still = O.steady_repr(mat(ctx, [pt[v, 0] for v in names]))
        ctx.same(len(got), len(names), 'number of equations')
        for i, e in enumerate(c.eqs):
            ctx.eq(got[i], equation(*e)[1](g, c.value), f'residual {i}')
            ctx.eq(still[i], equation(*e)[1](s, c.value), f'steady residual {i}')
        for i, o in enumerate(obs):
            ctx.eq(got[len(c.eqs)+i], pt[o, 0] - OBS[o][1](g, c.value), f'observation {o}')
            ctx.eq(still[len(c.eqs)+i], pt[o, 0] - OBS[o][1](s, c.value), f'steady observation {o}')


def fl_endog(names):
    from pynare.core.variables import _create_endog_vars
    return _create_endog_vars(list(names))


def cases(tier):
    P = patch_all(stubs={'solve_discrete_lyapunov': _exact_lyap})
    th = tier != 'quick'
    out = []
    for n, k, T, small in [(1, 1, 3, False), (2, 1, 2, False), (2, 2, 1, False), (1, 2, 0, False), (2, 2, 2, True), (2, 1, 3, True)] + \
            ([(1, 1, 4, False), (2, 2, 3, True), (3, 1, 2, False)] if th else []):
        if T == 0:
            continue
        out.append(dict(name=f'likelihood-{n}-{k}-{T}' + ('-c' if small else ''), fn=h_llk, params=dict(n=n, k=k, periods=T, small=small), patch=P))
    for n, locs, T, small in [(1, (0,), 3, False), (2, (0,), 2, False), (2, (1,), 2, False), (2, (0, 1), 1, False), (2, (1, 0), 2, True)] + \
            ([(3, (2, 0), 1, False), (2, (1,), 4, True)] if th else []):
        out.append(dict(name=f'selection-{n}-{"".join(map(str, locs))}-{T}', fn=h_sel, params=dict(n=n, locs=locs, periods=T, small=small), patch=P))
    out.append(dict(name='loglike', fn=h_loglike, params=dict(periods=2), patch=P))
    for k in (1, 2, 3) + ((4,) if th else ()):
        for lab in ('', 'frame', 'series'):
            if lab == 'series' and k > 1:
                continue
            out.append(dict(name=f'data-{k}-{lab or "plain"}', fn=h_data, params=dict(k=k, labelled=lab), patch=P))
    for e in ('', 'one', 'two'):
        out.append(dict(name=f'observed-{e or "plain"}', fn=h_observed, params=dict(edit=e), patch=patch_all(extra=derivative_stubs)))
    return out
