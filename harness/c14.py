"""C14: impulse responses isolate one shock of the requested size."""
import numpy as np
from .common import *
from .models import *
from .c13 import policy, covariance, rule, prep
from pynare.impulse import impulse_response

PROPERTY = 'C14'
BOUNDS = ('symbolic steady state, policy arrays, shock covariance and size; every shock of the model, by name or by default; '
          'structures up to 4 (thorough 5) endogenous variables, 3 shocks, 4 periods (thorough 5; up to 8 for models of one to three variables), orders 1 and 2')
ASSUMPTIONS = ['the steady state, covariance and policy arrays handed to the simulator are the ones checked by C07, C09, C10, C11',
               'array shapes of the policy arrays are those the real solver returns for a model of the same structure']


def h_irf(ctx, struct, ne, order, T, how, fresh=False):
    n = len(struct)
    m = base(struct, ne)
    gy, gu, so, first, second = policy(ctx, struct, ne, order)
    ss = ctx.reals('ss', (n,))
    sig, U = covariance(ctx, ne)
    M = hmodel(m, ss=ss, sigma=sig, first=first, second=second, order=order)
    if fresh:
        # nothing solved yet: the default order is used
        del M._solution
    size = ctx.real('size')
    which = ctx.choice('which', [None] + stochs(ne))
    k = 0 if which is None else stochs(ne).index(which)
    if how == 'method':
        r = M.impulse_response(exog=which, periods=T, size=size)
    elif how == 'unit':
        size = const(ctx, 1)
        r = impulse_response(M, which, T)
    else:
        r = impulse_response(M, exog=which, periods=T, size=size)
    want = [list(ss)]
    for t in range(1, T):
        eps = [size*U[k, l] if t == 1 else 0*ss[0] for l in range(ne)]
        want.append(rule(ctx, struct, ne, ss, want[-1], eps, gy, gu, so))
    want = np.array([[y[i]-ss[i] for i in range(n)] for y in want], dtype=object)
    ctx.eq(r.impulse, want, 'response')
    ctx.same(tuple(r.impulse.shape), (T, n), 'shape')
    ctx.same(r.periods, T, 'periods')
    ctx.eq(getattr(r, 'size', 'missing'), size, 'size')
    ctx.true(r.model is M, 'model')


def h_prop(ctx, struct, ne, T):
    """doubling (any scaling of) the size scales the first-order response"""
    n = len(struct)
    m = base(struct, ne)
    gy, gu, so, first, second = policy(ctx, struct, ne, 1)
    ss = ctx.reals('ss', (n,))
    sig, U = covariance(ctx, ne)
    M = hmodel(m, ss=ss, sigma=sig, first=first)
    size, lam = ctx.real('size'), ctx.real('lam')
    which = ctx.choice('which', stochs(ne))
    a = impulse_response(M, which, T, size)
    b = impulse_response(M, which, T, size*lam)
    ctx.eq(b.impulse, lam*a.impulse, 'proportional')
    # what the others do does not matter: one call does not change the next
    c = impulse_response(M, which, T, size)
    ctx.eq(c.impulse, a.impulse, 'repeatable')


def h_unknown(ctx, struct, ne):
    m = base(struct, ne)
    gy, gu, so, first, second = policy(ctx, struct, ne, 1)
    ss = ctx.reals('ss', (len(struct),))
    sig, U = covariance(ctx, ne)
    M = hmodel(m, ss=ss, sigma=sig, first=first)
    bad = ctx.choice('name', ['nothing', names(struct)[0], ''])
    try:
        impulse_response(M, exog=bad, periods=3)
    except (KeyError, ValueError):
        ctx.true(True, 'rejected')
    else:
        ctx.fail(f'unknown shock {bad!r} accepted')


def cases(tier):
    out = []
    T = 3 if tier == 'quick' else 4
    s1 = [('b', 1), ('sb', 1), ('fb', 2), ('fbs', 1), ('bmf', 2), ('mfsb', 2), ('bs', 3), ('fmm', 2)]
    s2 = [('sb', 1), ('mb', 1), ('bmf', 2), ('fbs', 2), ('fbs', 1)]
    if tier != 'quick':
        s1 += [('sbmfb', 2), ('ffbm', 3), ('bbb', 2)]
        s2 += [('sbmf', 2), ('bbf', 2)]
    for st, ne in s1:
        for how in ('given', 'unit', 'method'):
            out.append(dict(name=f'first-{st}-{ne}-{how}', fn=h_irf, params=dict(struct=st, ne=ne, order=1, T=T+1, how=how, fresh=how == 'method'), patch=prep(st, ne, 1)))
        out.append(dict(name=f'prop-{st}-{ne}', fn=h_prop, params=dict(struct=st, ne=ne, T=T), patch=prep(st, ne, 1)))
    for st, ne in s2:
        out.append(dict(name=f'second-{st}-{ne}', fn=h_irf, params=dict(struct=st, ne=ne, order=2, T=3, how='given'), patch=prep(st, ne, 2), weight=5))
    # longer responses of smaller models
    for st, ne, T in [('b', 1, 8), ('sbf', 2, 6), ('bm', 2, 5)] + ([('bm', 1, 8), ('mfb', 2, 6)] if tier != 'quick' else []):
        out.append(dict(name=f'long-{st}-{ne}', fn=h_irf, params=dict(struct=st, ne=ne, order=1, T=T, how='given'), patch=prep(st, ne, 1), weight=5))
    out.append(dict(name='unknown', fn=h_unknown, params=dict(struct='fbs', ne=2), patch=prep('fbs', 2, 1)))
    return out
