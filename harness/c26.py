"""C26: the printed equations are the model's equations."""
import os, re, tempfile
from .common import *
from .eqs import make, no_statespace
from pynare.core.expressions import ModelExprs
from pynare.core.model import Model

PROPERTY = 'C26'
BOUNDS = ('equations of up to 5 operands joined by any of + - * / ^ with signs, parentheses, functions, lags, leads and numbers, given as text with or without '
          'an equals sign, as parsed trees, or in a model file; lists of up to 3 equations after up to 2 changes; every value of the variables')
ASSUMPTIONS = ['the printed line is read by the parser of the library, which C01 and C02 decide',
               'exp, log and other functions and non-integer powers are uninterpreted functions of their arguments']
NAMES = ['a', 'bb', 'x_1']
OPS = ['+', '-', '*', '/', '^']
LEAVES = ['a', 'bb(-1)', 'x_1(+1)', '2', '0.5', '.000025', '150000000', 'exp(a)', 'log10(bb + 2)']


def point(ctx):
    return {(v, t): ctx.real(f'{v}_{t+1}', lo=Q(1, 2), hi=3, pref=Q(2*i+t+4, 4)) for t in (-1, 0, 1) for i, v in enumerate(NAMES)}


def residual(ctx, tree, val):
    fixed = ' + '.join(f'{v}(-1) + {v} + {v}(+1)' for v in NAMES) + ' = 0'
    M = make(NAMES, [], {}, [fixed, tree])
    return M.dynamic_repr(mat(ctx, [val[v, t] for t in (-1, 0, 1) for v in NAMES]))[1]


def lines(ctx, exprs):
    """the lines that were printed, without the heading"""
    return [l for l in str(exprs).split('\n')[1:]]


def judge(ctx, exprs, given, val):
    """given: the text of every equation that should be listed, in order"""
    got = lines(ctx, exprs)
    ctx.same(len(got), len(given), f'lines printed for {given}')
    if len(got) != len(given):
        return
    for l, g in zip(got, given):
        ctx.same(l.count('='), 1, f'equals signs in {l!r}')
        try:
            back = ModelExprs.parse(l)
        except Exception as e:
            ctx.fail(f'{g}: printed as {l!r}, which is no equation')
            continue
        try:
            want = residual(ctx, ModelExprs.parse(g), val)
        except (ZeroDivisionError, OverflowError):
            raise Infeasible
        ctx.eq(residual(ctx, back, val), want, f'residual of {g!r}, printed as {l.strip()!r}')


def given_as(ctx, text, how):
    if how == 'string':
        return ModelExprs([text])
    if how == 'tree':
        return ModelExprs([ModelExprs.parse(text)])
    if how == 'copied':
        return ModelExprs(ModelExprs([text]))
    if how == 'copied tree':
        return ModelExprs(ModelExprs([ModelExprs.parse(text)]))
    fixed = ' + '.join(f'{v}(-1) + {v} + {v}(+1)' for v in NAMES) + ' = 0'
    body = f'var {" ".join(NAMES)};\nvarexo e;\nparameters r;\nr = 1;\nmodel;\n{text};\n{fixed};\na = e + r;\nend;\nshocks;\nvar e = 1;\nend;\n'
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'm.mod')
        with open(p, 'w') as f:
            f.write(body)
        with no_statespace():
            exprs = Model.from_path(p).exprs
    return ModelExprs(exprs[:1])


def h_shape(ctx, shape, how):
    """operators and leaves are chosen by the solver"""
    out = []
    for i, w in enumerate(shape.split()):
        if w == 'o':
            out.append(ctx.choice(f'o{i}', OPS))
        elif w == 'm':
            out.append(ctx.choice(f'm{i}', ['-', '/', '^']))
        elif w == 's':
            out.append(ctx.choice(f's{i}', ['', '-', '+']))
        elif w == 'x':
            out.append(ctx.choice(f'x{i}', LEAVES))
        elif w == 'v':
            out.append(['a', 'bb(-1)', 'x_1(+1)'][i % 3])
        elif w == 'n':
            out.append(['2', '3', '2'][i % 3])
        elif w == 'end':
            out.append(ctx.choice('end', ['', ' = a', ';', ' = bb - a;']) if how != 'file' else ctx.choice('end', ['', ' = a - bb']))
        else:
            out.append(w)
    text = ' '.join(out)
    try:
        ModelExprs.parse(text)
    except SyntaxError:
        raise Infeasible
    judge(ctx, given_as(ctx, text, how), [text.rstrip('; ')], point(ctx))


def h_list(ctx, n, trees):
    """lists of equations that were changed"""
    pool = ['a = bb(-1)*2', 'bb - x_1(+1)/a', 'x_1 = (a - bb)^2', 'a(+1) - (bb - 1) = 3', '-a = -bb(-1)']
    as_given = lambda s, k: ModelExprs.parse(s) if k else s
    given = pool[:n]
    exprs = ModelExprs([as_given(s, t) for s, t in zip(given, trees)])
    for i in range(2):
        op = ctx.choice(f'op{i}', ['none', 'set', 'insert', 'append', 'delete', 'copy', 'reverse', 'iadd'])
        new = pool[3+i]
        k = ctx.choice(f'tree{i}', [0, 1]) if op in ('set', 'insert', 'append') else 0
        at = ctx.choice(f'at{i}', list(range(-len(given), len(given)))) if op in ('set', 'insert', 'delete') and given else 0
        if op == 'set' and given:
            exprs[at] = as_given(new, k)
            given = list(given)
            given[at] = new
        elif op == 'insert':
            exprs.insert(at, as_given(new, k))
            given = given[:at] + [new] + given[at:]
        elif op == 'append':
            exprs.append(as_given(new, k))
            given = given + [new]
        elif op == 'delete' and given:
            del exprs[at]
            given = list(given)
            del given[at]
        elif op == 'copy':
            kept, exprs = exprs, ModelExprs(exprs)
            kept.append('a = 1')
        elif op == 'reverse':
            exprs.reverse()
            given = given[::-1]
        elif op == 'iadd':
            exprs += [as_given(new, k)]
            given = given + [new]
    judge(ctx, exprs, given, point(ctx))


SHAPES = ['x o v end', 's v o s n end', 'v o v o n end', 'v o ( v o n ) end', '( v o n ) m v end', 's ( s v m n ) end', 'exp ( s v o n ) m v end']
LONG = ['v m v m n m v end', '( v m v ) o ( v m n ) = a', 'v m ( v m ( v m n ) ) = a', 's ( v - s n ) m ( - v ) end', 'v = n m v m v', 'v = x']
MORE = ['x o x o v end', 's x o s x end', 'v o v o n o v end', '( v o v ) o ( v o n ) end', 's ( v m s n ) m ( s v ) end', 'v o ( v o ( v o n ) ) = a']


def cases(tier):
    out = []
    quick = tier == 'quick'
    P = patch_all()
    for how in ('string', 'tree', 'copied', 'copied tree', 'file'):
        for shape in SHAPES + LONG + ([] if quick else MORE):
            if how in ('copied', 'copied tree', 'file') and quick and shape not in SHAPES[:2]:
                continue
            out.append(dict(name=f'{how}-{shape}'.replace(' ', ''), fn=h_shape, params=dict(shape=shape, how=how), patch=P, weight=10*shape.count('o')))
    for n in range(3 if quick else 4):
        for trees in ([0, 0, 0], [1, 1, 1], [0, 1, 0], [1, 0, 1]):
            if n or not any(trees):
                out.append(dict(name=f'list-{n}-{"".join(map(str, trees))}', fn=h_list, params=dict(n=n, trees=trees), patch=P, weight=50))
    return out
