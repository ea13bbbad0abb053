"""C09: the steady state is sought as a root of the steady equations."""
import numpy as np
import scipy.optimize
from .common import *
from .eqs import *
from .c04 import NAMES, params

PROPERTY = 'C09'
BOUNDS = ('models of 1 to 3 (thorough 4) variables and up to 4 equations with symbolic parameters, symbolic initial, terminal and historical values '
          'given or left out variable by variable, in any order; objective and start point at every symbolic point; the default, '
          'conjugate-gradient and Nelder-Mead choices with symbolic options; the model as built and after an edit')
ASSUMPTIONS = ['the minimiser itself (scipy.optimize.minimize) is a stub that records its arguments and returns symbolic values: whether it '
               'converges is outside the check', 'exp, log, sqrt and sin are uninterpreted functions', 'the state space is not built (C10)']


class minimiser:
    """stands in for scipy.optimize.minimize"""
    def __init__(self, ctx, n):
        self.ctx, self.n, self.calls = ctx, n, []

    def __enter__(self):
        self.real = scipy.optimize.minimize
        self.saved = [(d, k, d[k]) for d, k, _ in replace_fn(self.real, None)]
        scipy.optimize.minimize = self
        for d, k, _ in self.saved:
            d[k] = self
        return self

    def __exit__(self, *a):
        scipy.optimize.minimize = self.real
        for d, k, v in self.saved:
            d[k] = v

    def __call__(self, fun, x0, args=(), method=None, **kw):
        c = len(self.calls)
        x = mat(self.ctx, [self.ctx.real(f'min{c}_{i}', pref=Q(i+c+1, 3)) for i in range(self.n)])
        r = scipy.optimize.OptimizeResult(x=x, success=True, fun=0.0, nfev=7)
        self.calls.append((fun, x0, args, method, kw, r))
        return r


def h_objective(ctx, nv, n_eq, pool, method, shift, edit=False):
    names, shocks, pars = NAMES[pool]
    names, shocks = names[:nv], shocks[:1]
    patterns = [PATTERNS[(v+shift) % 7] for v in range(nv)]
    pv = params(ctx, pars)
    texts, _ = equations(patterns, names, shocks, pars, lambda v, t: 0*pv[pars[0]]+1, lambda p: pv[p], n_eq, shift=shift)
    given = {}
    for kind in ('initial', 'terminal', 'historical'):
        some = [n for n in names if bool(ctx.flag(f'{kind} {n}'))] if kind == 'initial' or nv < 2 else list(names[nv//2:] if kind == 'terminal' else names[:1])
        if ctx.choice(f'{kind} order', [0, 1]) if kind == 'initial' and len(some) > 1 else 0:
            some = some[::-1]
        given[kind] = {n: ctx.real(f'{kind}_{n}', pref=Q(len(n)+names.index(n), 2)) for n in some}
    with no_statespace():
        M = Model(endog=list(names), stoch=list(shocks), params=dict(pv), exprs=list(texts), shocks={s: {'variance': 1.0} for s in shocks},
                  name='h', **{k: dict(v) for k, v in given.items()})
        rounds = [None]
        if edit:
            rounds.append('edit')
        for rnd in rounds:
            if rnd == 'edit':
                pv = {**pv, pars[0]: ctx.real('new', nonzero=True, pref=Q(11, 4))}
                M.add_params(**{pars[0]: pv[pars[0]]})
            judge(ctx, M, names, shocks, pars, pv, patterns, n_eq, given, method, shift)


def judge(ctx, M, names, shocks, pars, pv, patterns, n_eq, given, method, shift):
    nv = len(names)
    opts = {}
    if method != 'values':
        opts = {'tol': ctx.real('tol', pref=Q(1, 8)), 'options': {'maxiter': 12}, 'callback': judge}
    with minimiser(ctx, nv) as m:
        ss = M.ss
        if method == 'values':
            got = ss.values
            again = ss.values
        elif method == 'results':
            got = ss.results.x
            again = ss.values
        else:
            got = ss.compute(**opts) if method is None else ss.compute(method, **opts) if method != 8 else ss.compute(method=method, **opts)
            again = ss.values
        res = ss.results
    ctx.same(len(m.calls) >= 1, True, 'something is minimised')
    if not m.calls:
        return
    fun, x0, args, how, kw, r = m.calls[-1]
    for i in range(nv):
        ctx.eq(got[i], r.x[i], f'returned value of {names[i]}')
        ctx.eq(again[i], r.x[i], f'reported value of {names[i]}')
    ctx.same(res is r, True, 'results are what the minimiser returned')
    if method == 'nelder-mead':
        ctx.same(str(how).lower(), 'nelder-mead', 'method')
    elif method == 8:
        ctx.same(str(how).lower(), 'cg', 'method')
    if method != 'values' and method != 'results':
        ctx.same('tol' in kw and kw.get('options') == opts['options'] and kw.get('callback') is judge, True, 'options reach the minimiser')
        if 'tol' in kw:
            ctx.eq(kw['tol'], opts['tol'], 'tolerance reaches the minimiser')
    # start
    ctx.same(np.shape(x0), (nv,), 'start point')
    for i, n in enumerate(names):
        ctx.eq(x0[i], given['initial'].get(n, const(ctx, 0)), f'start value of {n}')
    # objective
    x = [ctx.real(f'ss{v}', pref=Q(v+2, 3)) for v in range(nv)]
    st = lambda v, t: x[v] if t is not None else 0*pv[pars[0]]
    _, want = equations(patterns, names, shocks, pars, st, lambda p: pv[p], n_eq, shift=shift)
    value = fun(mat(ctx, x), *args)
    ctx.same(np.shape(value), (), 'objective is a number')
    ctx.eq(value, sum(w*w for w in want), 'objective')


def h_rejected(ctx, method):
    """unsupported choices do not pass for a steady state"""
    a = ctx.real('a', nonzero=True)
    M = make(['y'], ['e'], {'a': a}, ['y = a*y(-1) + e'])
    with minimiser(ctx, 1) as m:
        try:
            M.ss.compute(method)
        except Exception:
            ctx.same(True, True, 'rejected')
            return
    ctx.fail(f'steady-state method {method!r} accepted')


def cases(tier):
    quick = tier == 'quick'
    out = []
    P = patch_all()
    shapes = [(1, 1), (2, 2), (3, 3), (2, 1), (1, 2)] + ([] if quick else [(3, 4), (4, 4), (3, 1)])
    for nv, n_eq in shapes:
        for shift in range(3 if quick else 7):
            for method in (None, 8, 'nelder-mead', 'values', 'results', ''):
                if nv == 3 and quick and method in ('', 'results', 8) or nv == 4 and method in ('', 'results'):
                    continue
                pool = list(NAMES)[(shift+nv) % 4]
                out.append(dict(name=f'objective-{nv}-{n_eq}-{pool}-{method}-{shift}', fn=h_objective,
                                params=dict(nv=nv, n_eq=n_eq, pool=pool, method=method, shift=shift), patch=P, weight=2**nv))
    for method in (None, 'nelder-mead'):
        for nv in (1, 2):
            out.append(dict(name=f'edited-{nv}-{method}', fn=h_objective, params=dict(nv=nv, n_eq=nv, pool='order', method=method, shift=1, edit=True),
                            patch=P, weight=3))
    for method in (0, 1, 4, 11, 12, -1, 'newton', 'cg!', 2.0):
        out.append(dict(name=f'rejected-{method}', fn=h_rejected, params=dict(method=method), patch=P, weight=1))
    return out
