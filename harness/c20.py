"""C20: solution summaries label every coefficient correctly."""
import numpy as np
from .common import *
from .models import *
from .printed import *
from .c13 import prep

PROPERTY = 'C20'
BOUNDS = ('symbolic steady state and first- and second-order policy arrays; structures up to 4 endogenous variables, 3 states, 2 (thorough 3) shocks, '
          'with every order of variable kinds; any number of printed digits from 1 to 8; rows of every kind whose entries are at or below '
          'the display threshold, other entries being above it')
ASSUMPTIONS = ['array shapes of the policy arrays are those the real solver returns for a model of the same structure',
               'column widths (the decimal magnitude of the printed numbers) are not modelled', 'second-order arrays are symmetric in the pairs they multiply']


def arrays(ctx, struct, ne, order, pivot=None):
    """policy arrays by row label: {label: [value of variable in declaration order]}"""
    n, st, dr = len(struct), states(struct), dr_order(struct)
    ns, nm, sh = len(st), names(struct), stochs(ne)
    rows = {}

    def col(label, name, sym=None):
        free = pivot is not None and label in pivot
        kw = dict(lo=-4, hi=4) if free else dict(lo=Q(1, 2), hi=64)
        rows[label] = [ctx.real(f'{name}_{p}', pref=Q(3*p+len(rows)+9, 7), **kw) for p in range(n)]
        return rows[label]
    ss = col('steady', 'ss')
    gy, gu = zeros(ctx, n, ns), zeros(ctx, n, ne)
    put = lambda A, j, c: [A.__setitem__((p, j), c[v]) for p, v in enumerate(dr)]
    for j, s in enumerate(st):
        put(gy, j, col(f'{nm[s]}(-1)', f'gy{j}'))
    for k, s in enumerate(sh):
        put(gu, k, col(s, f'gu{k}'))
    shp = shapes(struct, ne, 1)
    first, second = (gy.reshape(shp['gy']), gu.reshape(shp['gu'])), None
    if order == 2:
        xx, xu, uu, d2 = zeros(ctx, n, ns*ns), zeros(ctx, n, ns*ne), zeros(ctx, n, ne*ne), zeros(ctx, n, 1)
        L = lambda s: f'{nm[s]}(-1)'
        for i, s in enumerate(st):
            for j, t in enumerate(st):
                if j < i:
                    rows[f'{L(s)}, {L(t)}'] = rows[f'{L(t)}, {L(s)}']
                else:
                    col(f'{L(s)}, {L(t)}', f'xx{i}{j}')
                put(xx, i*ns+j, rows[f'{L(s)}, {L(t)}'])
            for k, t in enumerate(sh):
                put(xu, i*ne+k, col(f'{L(s)}, {t}', f'xu{i}{k}'))
        for k, s in enumerate(sh):
            for l, t in enumerate(sh):
                if l < k:
                    rows[f'{s}, {t}'] = rows[f'{t}, {s}']
                else:
                    col(f'{s}, {t}', f'uu{k}{l}')
                put(uu, k*ne+l, rows[f'{s}, {t}'])
        put(d2, 0, col('del2', 'd2'))
        shp = shapes(struct, ne, 2)
        second = (xx.reshape(shp['ghxx']), xu.reshape(shp['ghxu']), uu.reshape(shp['ghuu']), d2.reshape(shp['del2']))
    return ss, first, second, rows


def summarise(ctx, struct, ne, order, pivot, **kw):
    ss, first, second, rows = arrays(ctx, struct, ne, order, pivot)
    M = hmodel(base(struct, ne), ss=mat(ctx, ss), first=first, second=second, order=order)
    return str(M._solution.summary(**kw)), rows


def judge(ctx, text, struct, rows, sig, limit):
    nm = names(struct)
    T = Table(text, nm)
    ctx.same(T.header is not None, True, 'header with the variables')
    if T.header is None:
        return
    norm = lambda s: s.replace(' ', '')
    shown = [norm(l) for l in T.labels()]
    want = {norm(k): v for k, v in rows.items()}
    ctx.same(sorted(set(shown)), sorted(shown), 'no row twice')
    for l, vals in T.rows:
        if norm(l) not in want:
            ctx.fail(f'row {l!r} is no coefficient of the solution')
            continue
        for i, v in enumerate(nm):
            same_number(ctx, vals[v], want[norm(l)][i], sig, f'{l} of {v}')
    for k, v in want.items():
        if k in shown:
            continue
        if limit is None:
            ctx.fail(f'row {k} is missing')
        else:
            for i, x in enumerate(v):
                ctx.true((x < limit) & (x > -limit) if ctx.sym else abs(x) < limit, f'row {k} left out, entry of {nm[i]}')


def h_table(ctx, struct, ne, order, sig):
    kw = {} if sig is None else dict(sig=sig)
    text, rows = summarise(ctx, struct, ne, order, None, **kw)
    judge(ctx, text, struct, rows, 6 if sig is None else sig, None)


def h_thresh(ctx, struct, ne, order, kind, sig, thresh):
    """one or two rows hold anything, all others are clearly above the threshold"""
    nm, sh, st = names(struct), stochs(ne), states(struct)
    L = lambda s: f'{nm[s]}(-1)'
    label = {'y': L(st[-1]), 'u': sh[-1], 'xx': f'{L(st[0])}, {L(st[-1])}', 'xu': f'{L(st[0])}, {sh[-1]}', 'uu': f'{sh[0]}, {sh[-1]}', 'del2': 'del2',
             'steady': 'steady'}[kind]
    kw = {}
    if sig is not None:
        kw['sig'] = sig
    if thresh is not None:
        kw['thresh'] = thresh
    text, rows = summarise(ctx, struct, ne, order, [label], **kw)
    s = 6 if sig is None else sig
    limit = None
    if order == 2 or thresh is not None:
        limit = const(ctx, Q(10)**-(s + (thresh or 0))*(1 + Q(1, 10**9)))
    judge(ctx, text, struct, rows, s, limit)


def cases(tier):
    quick = tier == 'quick'
    out = []
    shapes1 = [('b', 1), ('sb', 1), ('bs', 1), ('fbs', 2), ('mb', 2), ('bmb', 2), ('msfb', 1), ('mfb', 1), ('ff', 1), ('fs', 2), ('ss', 1), ('s', 1),
               ('bm', 0), ('bbm', 2), ('bs', 2)]
    shapes2 = [('b', 1), ('sb', 1), ('fb', 2), ('mb', 2), ('bm', 1), ('sbm', 2), ('mfb', 2), ('bs', 2), ('mbs', 1)]
    if not quick:
        shapes1 += [('mbmf', 3), ('bmbs', 2), ('fmsb', 2), ('bmbmf', 2), ('mmbb', 3)]
        shapes2 += [('mbmf', 2), ('bmbs', 3), ('fmsb', 3), ('bmb', 3)]
    for order, S in ((1, shapes1), (2, shapes2)):
        for struct, ne in S:
            for sig in ((None, 3) if quick else (None, 1, 3, 8)):
                out.append(dict(name=f'table-{order}-{struct}-{ne}-{sig}', fn=h_table, params=dict(struct=struct, ne=ne, order=order, sig=sig),
                                weight=len(struct)*order, patch=prep(struct, ne, order, extra=widths())))
    for order, S in ((1, [('sb', 1), ('mfb', 2)]), (2, [('sb', 1), ('mb', 2), ('fb', 2)])):
        for struct, ne in S:
            for kind in ('steady', 'y', 'u') + (('xx', 'xu', 'uu', 'del2') if order == 2 else ()):
                for sig, thresh in ((None, None), (3, None), (4, -2), (2, 1)) if order == 2 else ((None, None), (4, -2), (2, 1), (None, 0)):
                    out.append(dict(name=f'thresh-{order}-{struct}-{ne}-{kind}-{sig}-{thresh}', fn=h_thresh,
                                    params=dict(struct=struct, ne=ne, order=order, kind=kind, sig=sig, thresh=thresh), patch=prep(struct, ne, order, extra=widths()), weight=3*order))
    return out
