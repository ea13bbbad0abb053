"""C04: model residuals use the right variable, period and parameter value."""
import numpy as np
from .common import *
from .eqs import *
from pynare.errors import PynareError

PROPERTY = 'C04'
BOUNDS = ('symbolic values of every lagged, current and led variable, shock, parameter and model-local definition; every set of periods '
          'for each of up to 3 (thorough 4) variables; variable, shock and parameter names including ones that look like a lag or '
          'lead of another variable; up to 4 equations, both sides, ten forms of term; offsets from -3 to +3')
ASSUMPTIONS = ['exp is an uninterpreted function of its argument', 'the state space of the model is not built (C10)']
NAMES = {
    'plain': (['y', 'c', 'k', 'n'], ['e', 'u'], ['alpha', 'beta', 'rho']),
    'suffix': (['k', 'km1', 'kp1', 'km1m1'], ['km1p1', 'kp'], ['m1', 'p1', 'k_m1']),
    'prefix': (['x', 'xx', 'x1', 'X'], ['xxx', 'x_'], ['x2', 'e1', 'x0']),
    'order': (['z', 'a', 'm', 'b'], ['q', 'c'], ['y', 'd', 'n']),
}


def point(ctx, patterns, shocks, m_inc):
    vals = {}
    for v, t in m_inc:
        vals[v, t] = ctx.real(f'x{v}_{t+1}', pref=Q(3*v+t+2, 4))
    for s in shocks:
        vals[s, None] = ctx.real(f'u_{s}')
    return vals


def params(ctx, pars):
    return {p: ctx.real('p_'+p, nonzero=True, pref=Q(i+2, 3)) for i, p in enumerate(pars)}


def h_dynamic(ctx, nv, ne, pool, n_eq, local, shift):
    names, shocks, pars = NAMES[pool]
    names, shocks = names[:nv], shocks[:ne]
    patterns = [ctx.choice(f'periods{v}', PATTERNS) for v in range(nv)]
    inc = incidence(patterns)
    pv = params(ctx, pars)
    vals = point(ctx, patterns, shocks, inc)
    texts, want = equations(patterns, names, shocks, pars, lambda v, t: vals[v, t], lambda p: pv[p], n_eq, shift=shift)
    loc = {}
    if local:
        loc = {pars[-1]: pv.pop(pars[-1])}
    M = make(names, shocks, pv, texts, local_params=loc)
    pv = {**pv, **loc}
    pt = mat(ctx, [vals[x] for x in inc] + [vals[s, None] for s in shocks])
    got = M.dynamic_repr(pt)
    ctx.same(np.shape(got), (n_eq,), 'one residual per equation')
    for e in range(n_eq):
        ctx.eq(got[e], want[e], f'residual of {texts[e]}')
    # without shocks
    if ne:
        zero = lambda v, t: vals[v, t] if t is not None else 0*pv[pars[0]]
        _, want0 = equations(patterns, names, shocks, pars, zero, lambda p: pv[p], n_eq, shift=shift)
        got = M.dynamic_repr(pt[:len(inc)])
        for e in range(n_eq):
            ctx.eq(got[e], want0[e], f'residual without shocks of {texts[e]}')
    # steady state
    ss = [ctx.real(f'ss{v}', pref=Q(v+2, 3)) for v in range(nv)]
    st = lambda v, t: ss[v] if t is not None else 0*pv[pars[0]]
    _, want = equations(patterns, names, shocks, pars, st, lambda p: pv[p], n_eq, shift=shift)
    got = M.steady_repr(mat(ctx, ss))
    ctx.same(np.shape(got), (n_eq,), 'one steady residual per equation')
    for e in range(n_eq):
        ctx.eq(got[e], want[e], f'steady residual of {texts[e]}')


def h_bare(ctx, pool):
    """equations made of single nodes"""
    (x, y, z, _), (e, _), (a, b, c) = NAMES[pool]
    p = params(ctx, (a, b, c))
    inc = [(0, -1), (1, -1), (2, -1), (0, 0), (1, 0), (2, 0), (0, 1), (1, 1)]
    val = {i: ctx.real(f'x{i[0]}_{i[1]+1}') for i in inc}
    u = ctx.real('u')
    forms = [
        (f'{x} = {y}(-1)', lambda V, u: V(0, 0) - V(1, -1)),
        (f'{x}(+1) = {a}', lambda V, u: V(0, 1) - p[a]),
        (f'-{y} = {e}', lambda V, u: -V(1, 0) - u),
        (f'{z}(-1) = exp({b})', lambda V, u: V(2, -1) - exp(p[b])),
        (f'{c} = {z}', lambda V, u: p[c] - V(2, 0)),
        (f'{x}(-1)', lambda V, u: V(0, -1)),
        (f'{e} = -{y}(+1)', lambda V, u: u + V(1, 1)),
        (f'exp(-{x}) = -{c}', lambda V, u: exp(-V(0, 0)) + p[c]),
        (f'1.5 = {a}^2', lambda V, u: 1.5 - p[a]*p[a]),
    ]
    M = make([x, y, z], [e], p, [f for f, _ in forms])
    got = M.dynamic_repr(mat(ctx, [val[i] for i in inc] + [u]))
    for k, (f, w) in enumerate(forms):
        ctx.eq(got[k], w(lambda v, t: val[v, t], u), f'residual of {f}')
    ss = [ctx.real(f'ss{v}') for v in range(3)]
    got = M.steady_repr(mat(ctx, ss))
    for k, (f, w) in enumerate(forms):
        ctx.eq(got[k], w(lambda v, t: ss[v], 0*u), f'steady residual of {f}')
    for bad in (len(inc)-1, len(inc)+2):
        try:
            M.dynamic_repr(mat(ctx, [u]*bad))
            ctx.fail(f'{bad} arguments accepted by {len(inc)+1} dynamic arguments')
        except ValueError:
            pass


def h_offset(ctx, form):
    """periods outside one lag and one lead are rejected"""
    d = ctx.choice('offset', [-3, -2, -1, 0, 1, 2, 3])
    other = ctx.choice('also', [(), (-1,), (0,), (1,), (-1, 0, 1)])
    p = {'a': ctx.real('a', pref=Q(1, 2)), 'b': ctx.real('b')}
    terms = [f'a*k({d:+d})'] + [f'b*k({t:+d})' for t in other]
    text = {'sum': ' + '.join(terms) + ' = e', 'right': '0 = ' + ' + '.join(terms) + ' + e',
            'function': 'exp(' + ' + '.join(terms) + ') = 1 + e'}[form]
    texts = [text, 'c = 0.5*c(-1) + k*0' if False else 'c = a*c(-1)']
    periods = sorted({d, *other})
    try:
        M = make(['k', 'c'], ['e'], p, texts)
        M.indexes
        built = True
    except PynareError:
        built = False
    if any(abs(t) > 1 for t in periods):
        ctx.same(built, False, f'{text}: periods {periods} accepted')
        return
    ctx.same(built, True, f'{text}: periods {periods} accepted')
    if not built:
        return
    pats = [tuple(periods), (-1, 0)]
    inc = incidence(pats)
    vals = {x: ctx.real(f'x{x[0]}_{x[1]+1}') for x in inc}
    u = ctx.real('u')
    s = p['a']*vals[0, d]
    for t in other:
        s = s + p['b']*vals[0, t]
    want = [s - u if form == 'sum' else -s - u if form == 'right' else exp(s) - 1 - u, vals[1, 0] - p['a']*vals[1, -1]]
    pt = mat(ctx, [vals[x] for x in inc] + [u])
    got = M.dynamic_repr(pt)
    for e in range(2):
        ctx.eq(got[e], want[e], f'residual {e} of {text}')


def cases(tier):
    out = []
    quick = tier == 'quick'
    P = patch_all()
    for pool in NAMES:
        for nv, ne, n_eq in ((1, 1, 1), (2, 2, 2), (3, 1, 3)) if quick else ((1, 0, 1), (2, 2, 3), (3, 2, 3), (4, 1, 4)):
            if quick and nv == 3 and pool not in ('suffix', 'order'):
                continue
            for shift in (0, 4) if nv < 3 else (7,) if quick else (0, 2, 5, 7):
                out.append(dict(name=f'dynamic-{pool}-{nv}-{ne}-{n_eq}-{shift}', fn=h_dynamic, weight=nv**3, patch=P,
                                params=dict(nv=nv, ne=ne, pool=pool, n_eq=n_eq, local=pool in ('plain', 'order'), shift=shift), opts=dict(max_paths=3000)))
        out.append(dict(name=f'bare-{pool}', fn=h_bare, params=dict(pool=pool), patch=P))
    for form in ('sum', 'right', 'function'):
        out.append(dict(name=f'offset-{form}', fn=h_offset, params=dict(form=form), patch=P))
    return out
