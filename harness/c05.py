"""C05: variable classification and column indices are consistent."""
import numpy as np
from .common import *
from .eqs import *
from pynare.core.variables import set_lead_lags, _create_endog_vars, _create_stoch_vars, VariableIndexManager

PROPERTY = 'C05'
BOUNDS = ('every lead/lag incidence pattern of up to 3 (thorough 4) variables and 0 to 2 shocks, each period of each variable present or '
          'absent as a symbolic flag, spread over one or two equations and every kind of expression node; a symbolic vector of values '
          'permuted by the reported orders')
ASSUMPTIONS = ['the state space of the model is not built (C10)']
NM = ['q', 'c', 'z', 'k']
FORMS = ['{x}', '-{x}', 'exp({x})', '2*{x}', '({x})^2', '1/(1+{x})', 'log(2-{x})', '0*{x}']


def text(v, t):
    x = NM[v] + PERIODS[t]
    return FORMS[(3*v+t+1) % len(FORMS)].format(x=x)


def build(ctx, nv, ne, two):
    pats, eqs = [], [[], []]
    for v in range(nv):
        pat = []
        for t in (-1, 0, 1):
            if t == 1 and not pat:
                pat.append(t)       # every variable appears somewhere
                break
            if bool(ctx.flag(f'in{v}_{t+1}')):
                pat.append(t)
        for t in pat:
            eqs[(v+t) % 2 if two else 0].append(text(v, t))
        pats.append(tuple(pat))
    sh = ['u', 'e'][:ne]
    lhs = ' + '.join(eqs[0]) or '0'
    rhs = ' + '.join(eqs[1] + sh) or '0'
    if two == 2:
        texts = [lhs + ' = 1', '3 = ' + rhs]
    else:
        texts = [lhs + ' = ' + rhs]
    return pats, sh, texts


def check(ctx, idx, pats, ne, what=''):
    n = len(pats)
    inc = incidence(pats)
    col = {x: i for i, x in enumerate(inc)}
    static = [v for v in range(n) if -1 not in pats[v] and 1 not in pats[v]]
    pback = [v for v in range(n) if -1 in pats[v] and 1 not in pats[v]]
    mixed = [v for v in range(n) if -1 in pats[v] and 1 in pats[v]]
    pfore = [v for v in range(n) if -1 not in pats[v] and 1 in pats[v]]
    dr = static + pback + mixed + pfore
    L = lambda x: [int(i) for i in np.asarray(x).ravel()]
    ctx.same(L(idx.dr_order), dr, 'decision-rule order')
    inv = [dr.index(v) for v in range(n)]
    ctx.same(L(idx.dc_order), inv, 'declaration order is its inverse')
    counts = dict(n_static=len(static), n_mixed=len(mixed), n_forward=len(mixed)+len(pfore), n_backward=len(mixed)+len(pback),
                  n_state=len(mixed)+len(pback), n_dynamic=n-len(static), n_endog=n, n_exog=ne, n_endog_inc=len(inc))
    for k, w in counts.items():
        ctx.same(int(getattr(idx, k)), w, k)
    ctx.same(L(idx.exogenous_jacobian), list(range(len(inc), len(inc)+ne)), 'columns of the shocks')
    classes = dict(static=static, pure_backward=pback, mixed=mixed, pure_forward=pfore, state=pback+mixed, backward=pback+mixed,
                   forward=mixed+pfore, dynamic=pback+mixed+pfore, cont=[v for v in range(n) if 0 in pats[v]])
    llx = np.asarray(idx.llx, float)
    ctx.same(llx.shape, (3, n), 'shape of the incidence array')
    for t in (-1, 0, 1):
        for v in range(n):
            got = llx[t+1, v]
            ctx.same(None if np.isnan(got) else int(got), col.get((v, t)), f'column of variable {v} at {t}')
    keys = {-1: (-1, '-1', 't-1'), 0: (0, '0', 't'), 1: (1, '+1', 't+1')}
    for nm, members in classes.items():
        ctx.same(L(getattr(idx, nm)), sorted(members), f'{nm} in declaration order')
        ctx.same(L(getattr(idx.dr, nm)), [p for p, v in enumerate(dr) if v in members], f'{nm} in decision-rule order')
        for t in (-1, 0, 1):
            for k in keys[t]:
                ctx.same(L(getattr(idx, nm+'_timed')[k]), [col[v, t] for v in sorted(members) if (v, t) in col], f'{nm} at {k} in declaration order')
                ctx.same(L(getattr(idx.dr, nm+'_timed')[k]), [col[v, t] for v in dr if v in members and (v, t) in col], f'{nm} at {k} in decision-rule order')
    ctx.same(L(idx.flatten()), list(range(len(inc))), 'columns in order')
    return dr, inv, classes


def h_index(ctx, nv, ne, two):
    pats, sh, texts = build(ctx, nv, ne, two)
    M = make(NM[:nv], sh, {}, texts)
    dr, inv, classes = check(ctx, M.indexes, pats, ne)
    # orders as permutations of values
    x = ctx.reals('x', (nv,))
    y = x[M.indexes.dr_order]
    for p, v in enumerate(dr):
        ctx.eq(y[p], x[v], f'position {p} of the decision-rule order')
    z = y[M.indexes.dc_order]
    for v in range(nv):
        ctx.eq(z[v], x[v], f'variable {v} back in declaration order')
    for nm in ('state', 'pure_forward', 'pure_backward', 'mixed', 'static', 'forward', 'backward'):
        ctx.same([str(s) for s in getattr(M, nm+'_vars').names], [NM[v] for v in sorted(classes[nm])], f'{nm} variables of the model')


def h_manager(ctx, nv, ne):
    """the index manager on its own, larger"""
    pats, sh, texts = build(ctx, nv, ne, 1)
    from pynare.core.expressions import ModelExprs
    endog = set_lead_lags(_create_endog_vars(NM[:nv]), ModelExprs(texts))
    for v, eg in enumerate(endog):
        ctx.same(sorted(eg.lead_lag), sorted(pats[v]), f'periods of variable {v}')
    check(ctx, VariableIndexManager(endog, _create_stoch_vars(sh)), pats, ne)


def cases(tier):
    P = patch_all()
    out = []
    for nv, ne, two in ((1, 0, 1), (1, 1, 2), (2, 1, 1), (2, 2, 2), (2, 0, 0), (3, 1, 2)) + (((3, 2, 1), (3, 0, 0)) if tier != 'quick' else ()):
        out.append(dict(name=f'model-{nv}-{ne}-{two}', fn=h_index, params=dict(nv=nv, ne=ne, two=two), patch=P, weight=8**nv, opts=dict(max_paths=6000)))
    if tier != 'quick':
        out.append(dict(name='manager-4-1', fn=h_manager, params=dict(nv=4, ne=1), patch=P, weight=9000, opts=dict(max_paths=6000)))
    out.append(dict(name='manager-2-1', fn=h_manager, params=dict(nv=2, ne=1), patch=P, weight=9, opts=dict(max_paths=6000)))
    return out
