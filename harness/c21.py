"""C21: model and statistics summaries report the model's own numbers."""
import copy, re
import numpy as np
from .common import *
from .models import *
from .printed import *
from .c13 import prep
from pynare.core.variables import ModelCalibration
from pynare.stats import moments, var as var_module
from pynare.stats.stats import ModelStatistics

PROPERTY = 'C21'
BOUNDS = ('symbolic eigenvalues (positive, negative, zero and complex pairs), shock covariance, parameters, means, standard deviations, '
          'correlations, autocorrelations and variance shares, each of either sign; structures up to 4 endogenous variables, 0 to 3 shocks, 0 to 3 '
          'parameters, up to 6 lags; every choice of features')
ASSUMPTIONS = ['column widths (the decimal magnitude of the printed numbers) are not modelled',
               'the statistics themselves are the ones checked by C15 and C16: stand-ins return consistent symbolic numbers']


# ------------------------------------------------------------------ complex numbers
class Z:
    """a symbolic complex number: parts and modulus"""
    def __init__(self, a, b, mod):
        self.real, self.imag, self.mod = a, b, mod

    def __abs__(self):
        return self.mod


def extras():
    def part(real, f):
        def g(x, *a, **k):
            y = np.asarray(x, dtype=object) if not isinstance(x, np.ndarray) else x
            if y.dtype == object and any(isinstance(e, Z) for e in y.ravel()):
                out = np.empty(y.shape, dtype=object)
                for i in np.ndindex(*y.shape):
                    out[i] = f(y[i])
                return shim.lift(out) if y.shape else out[()]
            return real(x, *a, **k)
        return g
    over = shim.NP._over
    out = widths()
    for n, f in (('real', lambda e: e.real), ('imag', lambda e: e.imag), ('absolute', abs), ('abs', abs)):
        out.append((over, n, part(over.get(n, getattr(np, n)), f)))
    return out


def numbers(ctx, name, shape, sign):
    """entries of alternating sign"""
    A = np.empty(shape, dtype=object if ctx.sym else float)
    for c, i in enumerate(np.ndindex(*shape)):
        neg = (sum(i) + sign) % 2 if sign >= 0 else 0
        A[i] = ctx.real(name + ''.join(f'_{x}' for x in i), pref=Q(3*c+8, 7)*(-1 if neg else 1), **(dict(lo=-64, hi=-Q(1, 8)) if neg else dict(lo=Q(1, 8), hi=64)))
    return mat(ctx, A)


def blocks(text):
    return [b for b in text.split('\n\n') if b.strip()]


def find(text, columns):
    for b in blocks(text):
        T = Table(b.replace('std dev', 'std_dev'), columns)
        if T.header is not None:
            yield T


def table(ctx, text, columns, rows, want, sig, what):
    """exactly one block with these columns and rows"""
    Ts = [T for T in find(text, columns) if all(x.split() for x in T.labels()) or not T.labels()]
    Ts = [T for T in Ts if sorted(T.labels()) == sorted(rows)]
    ctx.same(len(Ts), 1, f'{what}: one table')
    if len(Ts) != 1:
        return
    for label, vals in Ts[0].rows:
        for c in columns:
            same_number(ctx, vals[c], want(rows.index(label), columns.index(c)), sig, f'{what}: {label}, {c}')


def h_model(ctx, struct, ne, npar, ask, sign, sig):
    nm, sh = names(struct), stochs(ne)
    m = base(struct, ne)
    sigma = numbers(ctx, 'v', (ne, ne), sign)
    for i in range(ne):
        for j in range(i):
            sigma[i, j] = sigma[j, i]
        if sign == -2:
            sigma[:, i] = sigma[0, 0]*0
            sigma[i, :] = sigma[0, 0]*0
    M = hmodel(m, sigma=sigma)
    pn = ['rho', 'b', 'alpha'][:npar]
    pv = numbers(ctx, 'p', (npar,), sign)
    if sign == -2:
        pv = [0.0]*npar
    M.params = ModelCalibration(dict(zip(pn, pv)))
    # eigenvalues
    kinds = ctx.choice('eigenvalues', [('+', '-'), ('-', '+', '+'), ('c', '+'), ('-', 'c'), ('0', '-'), ('+',), ('0',)] if sign != -2 else [('0', '0'), ('0',)])
    parts = []
    for i, k in enumerate(kinds):
        if k == '0':
            parts.append((const(ctx, 0), const(ctx, 0), const(ctx, 0)))
            continue
        x = ctx.real(f'l{i}', lo=Q(1, 8), hi=8, pref=Q(5*i+9, 7))
        if k == '+':
            parts.append((x, const(ctx, 0), x))
        elif k == '-':
            parts.append((-x, const(ctx, 0), x))
        else:
            # (2t, 1-t^2, 1+t^2): every direction off the axes in the first quadrant
            t = ctx.real(f't{i}', lo=Q(1, 8), hi=Q(7, 8), pref=Q(2, 7))
            a, b, mod = x*2*t, x*(1-t*t), x*(1+t*t)
            parts += [(a, b, mod), (a, -b, mod)]
    if ctx.sym:
        e = np.empty(len(parts), dtype=object)
        for i, p in enumerate(parts):
            e[i] = Z(*p)
    else:
        e = np.array([complex(a, b) for a, b, _ in parts])
    M._statespace.eigen = e
    kw = {}
    subset = None
    shown = {'variables', 'eigen', 'stoch', 'params'}
    if ask == 'only one':
        o = ctx.choice('only', sorted(shown))
        kw['only'], shown = o, {o}
    elif ask == 'only two':
        o = ctx.choice('only', [('variables', 'params'), ['stoch', 'eigen'], ('params', 'stoch')])
        kw['only'], shown = o, set(o)
    elif ask == 'not':
        o = ctx.choice('not', sorted(shown))
        kw[o] = False
        shown = shown - {o}
    elif ask == 'params' and npar > 1:
        subset = ctx.choice('subset', [pn[:1], pn[1:], pn[::-1]])
        kw['params'] = subset
    if sig is not None:
        kw['sig'] = sig
    text = str(M.summary(**kw))
    digits = 6 if sig is None else sig
    # counts
    counts = {'variables': len(struct), 'stochastic shocks': ne, 'state vars': sum(k in 'bm' for k in struct),
              'forward-looking vars': sum(k in 'mf' for k in struct), 'static vars': struct.count('s')}
    got = {}
    for line in text.split('\n'):
        r = re.match(r'\s*number of ([^:]*?)\s*:\s*(-?\d+)\s*$', line)
        if r:
            ctx.same(r[1] in got, False, f'{r[1]} once')
            got[r[1]] = int(r[2])
    if 'variables' in shown:
        for k, v in counts.items():
            ctx.same(got.get(k, 0), v, f'number of {k}')
        ctx.same(sorted(set(got) - set(counts)), [], 'no other counts')
    else:
        ctx.same(got, {}, 'no counts')
    # eigenvalues
    E = list(find(text, ['real', 'imag', 'mod']))
    ctx.same(len(E), int('eigen' in shown), 'eigenvalue table')
    if E and 'eigen' in shown:
        ctx.same(len(E[0].rows), len(parts), 'number of eigenvalues')
        left = list(parts)
        for label, r in E[0].rows:
            i = next((i for i, p in enumerate(left) if all(agrees(ctx, r[c], p[k], digits) for k, c in enumerate(('real', 'imag', 'mod')))), None)
            if i is None:
                ctx.fail(f'{r} is not an eigenvalue with its modulus')
            else:
                left.pop(i)
    # covariance
    if ne:
        if 'stoch' in shown:
            table(ctx, text, sh, sh, lambda i, j: sigma[i, j], digits, 'covariance')
        else:
            ctx.same(sum(sorted(T.labels()) == sorted(sh) for T in find(text, sh)), 0, 'no covariance')
    # parameters
    vals = {}
    for line in text.split('\n'):
        r = re.match(r'\s*(\w+)\s*=\s*(\S+)\s*$', line)
        if r:
            ctx.same(r[1] in vals, False, f'{r[1]} once')
            vals[r[1]] = r[2]
    want = {} if 'params' not in shown else dict(zip(pn, pv)) if subset is None else {k: pv[pn.index(k)] for k in subset}
    ctx.same(sorted(vals), sorted(want), 'parameters shown')
    for k, v in want.items():
        if k in vals:
            same_number(ctx, vals[k], v, digits, f'parameter {k}')
    if ctx.sym:
        for k in [k for k in ctx.fmt if k[0] == 'specs']:
            ctx.fmt[k] = set()
    vals = [m for m in (re.match(r'\s*(\w+)\s*=\s*(\S+)\s*$', l) for l in str(M.params).split('\n')) if m]
    ctx.same(sorted(m[1] for m in vals), sorted(pn), 'the calibration printed by itself')
    for m in vals:
        if m[1] in pn:
            same_number(ctx, m[2], pv[pn.index(m[1])], 6, f'parameter {m[1]} in the calibration')


def agrees(ctx, text, want, sig):
    if MARK.fullmatch(text):
        d = ctx.fmt['unfmt', text] - want
        return not isinstance(d, float) and not d.num
    if ctx.sym:
        return isinstance(want, Sym) and want.is_const() and Fraction(text) == want.value()
    return abs(float(text) - want) <= 0.501*10**-sig + 1e-9*abs(want)


class stand_ins:
    """statistics with the symbolic results given, wherever the library refers to them"""
    def __init__(self, fns):
        self.fns = fns

    def __enter__(self):
        self.saved = []
        for f, new in self.fns.items():
            for d, k, _ in replace_fn(f, None):
                self.saved.append((d, k, d[k]))
                d[k] = new
            feats = getattr(ModelStatistics, 'features', {})
            for k, v in list(feats.items()):
                if v is f:
                    self.saved.append((feats, k, v))
                    feats[k] = new

    def __exit__(self, *a):
        for d, k, v in self.saved:
            d[k] = v


def h_stats(ctx, struct, ne, ask, sign, sig):
    n = len(struct)
    nm, sh = names(struct), stochs(ne)
    M = hmodel(base(struct, ne))
    mean = numbers(ctx, 'mean', (n,), sign)
    sd = numbers(ctx, 'sd', (n,), -1)
    R = numbers(ctx, 'r', (n, n), sign)
    for i in range(n):
        R[i, i] = R[i, i]*0 + 1
        for j in range(i):
            R[i, j] = R[j, i]
    C = zeros(ctx, n, n)
    for i in range(n):
        for j in range(n):
            C[i, j] = R[i, j]*sd[i]*sd[j]
    lags = ctx.choice('lags', [1, 3]) if ask == 'lags' else 5
    A = numbers(ctx, 'a', (6, n, n), sign)
    D = numbers(ctx, 'd', (n, ne), -1)
    scaled = zeros(ctx, 6, n, n)
    for i in range(n):
        for j in range(n):
            for k in range(6):
                scaled[k, i, j] = A[k, i, j]*sd[i]*sd[j]
    kw, shown = {}, {'moments', 'corr', 'autocorr', 'decomp'}
    if ask == 'only one':
        o = ctx.choice('only', sorted(shown))
        kw['only'], shown = o, {o}
    elif ask == 'only two':
        o = ctx.choice('only', [('moments', 'decomp'), ['autocorr', 'corr'], ('decomp', 'autocorr')])
        kw['only'], shown = o, set(o)
    elif ask == 'not':
        o = ctx.choice('not', sorted(shown))
        kw[o] = False if o != 'autocorr' else 0
        shown = shown - {o}
    elif ask == 'lags':
        kw['autocorr'] = lags
    if sig is not None:
        kw['sig'] = sig

    def shares(md, endog=None, stoch=None):
        assert endog is None and stoch is None
        return D.copy()
    fns = {moments.mean: lambda md: mean.copy(), moments.var: lambda md: sd*sd, moments.std: lambda md: sd.copy(), moments.corr: lambda md: R.copy(),
           moments.cov: lambda md: C.copy(), moments.autocorr: lambda md, p=5: A[:p].copy(), moments.autocov: lambda md, p=5: scaled[:p].copy(),
           var_module.var_decomp: shares}
    with stand_ins(fns):
        text = str(M.stats.summary(**kw))
    digits = 6 if sig is None else sig
    cols = ['mean', 'std_dev', 'var']
    if 'moments' in shown:
        table(ctx, text, cols, nm, lambda i, j: [mean[i], sd[i], sd[i]*sd[i]][j], digits, 'moments')
    else:
        ctx.same(len(list(find(text, cols))), 0, 'no moments')
    if 'corr' in shown:
        table(ctx, text, nm, nm, lambda i, j: R[i, j], digits, 'correlation')
    else:
        ctx.same(len(list(find(text, nm))), 0, 'no correlations')
    if 'decomp' in shown:
        table(ctx, text, sh, nm, lambda i, j: D[i, j], digits, 'variance share')
    else:
        ctx.same(len(list(find(text, sh))), 0, 'no variance shares')
    # lags may be headed 'p = 1', 'p=1' or '1'
    short = re.sub(r'\bp\s*=\s*(\d+)', r'lag\1', text)
    heads = [re.findall(r'\blag\d+', l) for l in short.split('\n')]
    heads = [h for h in heads if h]
    if 'autocorr' not in shown:
        ctx.same(heads, [], 'no autocorrelations')
        return
    want = [f'lag{k+1}' for k in range(lags)]
    ctx.same(heads, [want], 'lags')
    if heads == [want]:
        table(ctx, short, want, nm, lambda i, j: A[j, i, i], digits, 'autocorrelation')
        b = [x for x in blocks(short) if 'lag1' in x][0]
        ctx.same('autocov' in b, False, 'autocorrelations are not called autocovariances')


def h_invalid(ctx, what):
    """features that do not exist are rejected"""
    x = ctx.real('p', lo=Q(1, 8))
    M = hmodel(base('sb', 1))
    M.params = ModelCalibration({'p': x})
    obj = M if what[0] == 'model' else M.stats
    try:
        str(obj.summary(only=what[1]))
    except (ValueError, TypeError, AttributeError):
        ctx.same(True, True, 'rejected')
        return
    ctx.fail(f'features {what[1]!r} accepted')


def cases(tier):
    quick = tier == 'quick'
    out = []
    shp = [('s', 1), ('b', 1), ('fb', 2), ('sbm', 2), ('mfb', 3), ('bs', 0), ('fmsb', 2)]
    for struct, ne in shp:
        patch = prep(struct, ne, 1, extra=lambda ctx: extras())
        for npar in (0, 1, 3):
            for ask in ('all', 'only one', 'only two', 'not', 'params'):
                for sign in (0, 1) if not quick or ask == 'all' else (1,):
                    if quick and ask != 'all' and npar != 3 or ask == 'params' and npar < 2:
                        continue
                    sig = {'all': None, 'not': 3}.get(ask, 8 if sign else None)
                    out.append(dict(name=f'model-{struct}-{ne}-{npar}-{ask}-{sign}', fn=h_model,
                                    params=dict(struct=struct, ne=ne, npar=npar, ask=ask, sign=sign, sig=sig), patch=patch, weight=3))
        out.append(dict(name=f'model-zero-{struct}-{ne}', fn=h_model, params=dict(struct=struct, ne=ne, npar=1, ask='all', sign=-2, sig=None), patch=patch))
        if not ne:
            continue
        for ask in ('all', 'only one', 'only two', 'not', 'lags'):
            for sign in (0, 1):
                out.append(dict(name=f'stats-{struct}-{ne}-{ask}-{sign}', fn=h_stats,
                                params=dict(struct=struct, ne=ne, ask=ask, sign=sign, sig={'all': None, 'not': 3}.get(ask, 8 if sign else None)),
                                patch=patch, weight=5))
    patch = prep('sb', 1, 1, extra=lambda ctx: extras())
    for what in (('model', 'corr'), ('model', ('eigen', 'nothing')), ('stats', 'eigen'), ('stats', ['moments', 'x']), ('model', 3)):
        out.append(dict(name=f'invalid-{what[0]}-{what[1]}', fn=h_invalid, params=dict(what=what), patch=patch))
    return out
