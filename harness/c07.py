"""C07: the shock covariance matrix reflects every declared moment."""
import itertools
import numpy as np
from .common import *
from .eqs import *

PROPERTY = 'C07'
BOUNDS = ('1 to 3 (thorough 4) shocks in every declaration order; for each shock the variance declared or not, for each pair no moment, a '
          'correlation, a covariance or both, held by either shock; symbolic non-negative variances, symbolic correlations and covariances')
ASSUMPTIONS = ['the state space of the model is not built (C10)', 'square root is uninterpreted (with its square)']
SH = ['u', 'e', 'v', 'a']


def h_sigma(ctx, n, kinds, copied):
    names = list(ctx.choice('declaration', list(itertools.permutations(SH[:n]))[::1 if n < 3 else 2]))
    rev = ctx.choice('reverse', [False, True]) if n == 2 else n > 2
    var, shocks = {}, {}
    sets = [c for k in range(n+1) for c in itertools.combinations(SH[:n], k)]
    has = ctx.choice('declared', sets if n < 3 else sets[:1] + sets[2:3] + sets[-1:])
    for s in (reversed(SH[:n]) if rev else SH[:n]):
        if s in has:
            var[s] = ctx.real('var_'+s, lo=0, pref=Q(SH.index(s)+2, 2))
            shocks[s] = {'variance': var[s]}
    want = {(s, s): var.get(s, 1.0) for s in names}
    pairs = list(itertools.combinations(SH[:n], 2))
    held = {}
    for k, (s, t) in enumerate(pairs):
        kind = ctx.choice(f'kind_{s}{t}', kinds)
        if kind == 'none':
            continue
        owner, other = ctx.choice(f'owner_{s}{t}', [(s, t), (t, s)])
        if 'corr' in kind:
            r = ctx.real(f'corr_{s}{t}', pref=Q(k+1, 5))
            held.setdefault(owner, []).append(('corr', other, r))
            want[s, t] = want[t, s] = r*sqrt(const(ctx, 0) + want[s, s]*want[t, t])
        if 'cov' in kind:
            c = ctx.real(f'cov_{s}{t}', pref=Q(k+2, 7))
            held.setdefault(owner, []).append(('cov', other, c))
            want[s, t] = want[t, s] = c
    for s, ms in held.items():
        d = shocks.setdefault(s, {})
        others = {o for _, o, _ in ms}
        if len(others) == 1:
            d['other'] = ms[0][1]
            for k, o, x in ms:
                d[k] = x
        else:
            for k, o, x in ms:
                d.setdefault(k, {})[o] = x
    from pynare.core.model import Model
    with no_statespace():
        M = Model(endog=['y'], stoch=names, params={}, exprs=['y = 0.5*y(-1) + ' + ' + '.join(names)], shocks=shocks, initial={}, name='h')
        if copied:
            M = M.copy()
        S = M.sigma
        ctx.same(np.shape(S), (n, n), 'shape')
        for i, s in enumerate(names):
            for j, t in enumerate(names):
                ctx.eq(S[i, j], want.get((s, t), 0.0), f'covariance of {s} and {t}')
        # again after a change of the model
        x = ctx.real('newvar', lo=0, pref=3)
        z = names[-1]
        if not held:
            M.stoch[n-1].variance = x
            M.is_altered = True
            S = M.sigma
            for i, s in enumerate(names):
                for j, t in enumerate(names):
                    ctx.eq(S[i, j], x if s == t == z else want.get((s, t), 0.0), f'changed covariance of {s} and {t}')


def h_unknown(ctx, kind):
    """a moment with something that is not a shock is an error"""
    x = ctx.real('x')
    from pynare.core.model import Model
    other = ctx.choice('other', ['y', 'zz', 'w'])
    try:
        with no_statespace():
            M = Model(endog=['y'], stoch=['u', 'e'], params={'w': 2.0}, exprs=['y = u + e'], shocks={'u': {'variance': 1.0, 'other': other, kind: x}}, name='h')
            M.sigma
        ctx.fail(f'{kind} with {other} accepted')
    except (KeyError, ValueError, TypeError):
        ctx.true(True, 'rejected')


def cases(tier):
    P = patch_all()
    out = []
    all4 = ['none', 'corr', 'cov', 'corrcov']
    for n, kinds, cp in ((1, all4, False), (1, all4, True), (2, all4, False), (2, all4, True), (3, ['none', 'corr'], False), (3, ['cov', 'corr'], True)) + (() if tier == 'quick' else ((3, ['none', 'cov', 'corr'], False),)):
        out.append(dict(name=f'sigma-{n}-{"-".join(kinds)}-{"copy" if cp else "new"}', fn=h_sigma, params=dict(n=n, kinds=kinds, copied=cp), patch=P, weight=10**n,
                        opts=dict(max_paths=40000, validate_p=0.005)))
    for kind in ('corr', 'cov'):
        out.append(dict(name=f'unknown-{kind}', fn=h_unknown, params=dict(kind=kind), patch=P))
    return out
