"""C01: expressions are parsed and evaluated by ordinary arithmetic rules."""
from .common import *
from .tokens import *
from .eqs import make, exp, incidence
from pynare.parsing import parse_string, evaluate
from pynare.core.expressions import ModelExprs

PROPERTY = 'C01'
BOUNDS = ('every sequence of up to 6 (thorough 7) tokens, each an identifier, a number, a parenthesis, + - * / ^, a comparison, a function '
          'name, a comma, a semicolon or an equals sign; symbolic values of every identifier and number')
ASSUMPTIONS = ['exp, log, sqrt and other functions and non-integer powers are uninterpreted functions of their arguments',
               'the lexer is taken from C02: words of the text are read as tokens of the chosen kind']
EXPR = ['ID', 'NUM', '(', '-', '+', '*', '/', '^', ')', '<', 'exp']
MODEL = ['ID', '1', '(', '-', '+', '*', '/', '^', ')', '=', 'exp']
V = [f'v{i}' for i in range(8)]


def same_value(ctx, got, want, label):
    if isinstance(want, SymBool) or isinstance(got, SymBool) or isinstance(want, (bool, np.bool_)):
        if ctx.sym:
            if not isinstance(got, (SymBool, bool, np.bool_)) or not isinstance(want, (SymBool, bool, np.bool_)):
                ctx.fail(label + ': not a truth value')
            elif isinstance(got, SymBool) and isinstance(want, SymBool):
                ctx.true((got & want) | (~got & ~want), label)
            else:
                known, other = (got, want) if isinstance(want, SymBool) else (want, got)
                if isinstance(other, SymBool):
                    ctx.true(other if known else ~other, label)
                else:
                    ctx.same(bool(other), bool(known), label)
        else:
            ctx.same(bool(got), bool(want), label)
            ctx.same(isinstance(got, (bool, np.bool_)), True, label + ': a truth value')
        return
    if not ctx.sym and (isinstance(want, complex) or isinstance(got, complex) or not np.isfinite(want)):
        raise Infeasible
    ctx.eq(got, want, label)


def slots(ctx, L, first, kinds):
    out = []
    for i in range(L):
        k = [x for x in kinds if x in first] if i == 0 and first else kinds
        lit = ctx.real(f'n{i}', lo=Q(1, 4), hi=8, pref=Q(2*i+3, 4)) if 'NUM' in k else None
        out.append(Slot(ctx, i, k, V[i], lit))
    return out


def h_expr(ctx, L, first, kinds, power='^', how='string'):
    value(ctx, slots(ctx, L, first, kinds), L, power, how)


def value(ctx, s, L, power, how):
    val = {V[i]: ctx.real(V[i], pref=Q(i+2, 3)) for i in range(L)}
    shown = lambda: ' '.join(x.text(power) for x in s)
    try:
        with texts(ctx, s, power) as text:
            if how == 'string':
                tree = parse_string(text, exp='standard' if power == '^' else 'python')
            else:
                got = evaluate(text, val, exp='standard' if power == '^' else 'python')
        ok = True
    except (ZeroDivisionError, OverflowError):
        raise Infeasible
    except Exception as e:
        if isinstance(e, alg.SymEscape) or type(e).__name__ in ('TypeError',) and 'complex' in str(e):
            raise
        ok = False
    r = Reader(s, lambda n, t: val[n], FUNS)
    try:
        want = r.whole()
    except Reject:
        if ok:
            ctx.fail(f'{shown()}: accepted')
        else:
            ctx.same(ok, False, 'rejected')
        return
    if not ok:
        ctx.fail(f'{shown()}: rejected')
        return
    try:
        want = want()
    except (ZeroDivisionError, OverflowError, TypeError):
        raise Infeasible
    if how == 'string':
        got = evaluate(tree, val)
    same_value(ctx, got, want, f'value of {shown()}')


def unary(name):
    import math
    real = {'exp': np.exp, 'log': np.log, 'ln': np.log, 'log10': np.log10, 'sqrt': np.sqrt, 'abs': np.abs, 'sign': np.sign, 'sin': np.sin,
            'cos': np.cos, 'tan': np.tan, 'asin': np.arcsin, 'acos': np.arccos, 'atan': np.arctan, 'erf': math.erf}[name]
    sym = {'exp': 'exp', 'log': 'log', 'ln': 'log', 'log10': 'log10', 'sqrt': 'sqrt', 'sin': 'sin', 'cos': 'cos', 'tan': 'tan',
           'asin': 'arcsin', 'acos': 'arccos', 'atan': 'arctan', 'erf': 'erf'}

    def f(x):
        if isinstance(x, Sym):
            if name == 'abs':
                return x if x >= 0 else -x
            if name == 'sign':
                return Sym.const(1) if x > 0 else Sym.const(-1) if x < 0 else Sym.const(0)
            return alg.apply(sym[name], [x])
        with np.errstate(all='ignore'):
            return real(x)
    return f


NAMED = ('exp', 'log', 'ln', 'log10', 'sqrt', 'abs', 'sign', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'erf')
FUNS = {n: unary(n) for n in NAMED}


def functions(_=None):
    from autograd.scipy.special import erf
    return replace_fn(erf, unary('erf'))


def h_fun(ctx, model):
    """every function applies to its whole argument and nothing else, and is the function it is named after"""
    name = ctx.choice('function', NAMED)
    f = unary(name)
    form = ctx.choice('form', range(6))
    wide = name in ('abs', 'sign', 'exp', 'sin', 'cos', 'tan', 'atan', 'erf')
    x = ctx.real('x', *((None, None) if wide else (Q(1, 16), Q(7, 16))), pref=Q(1, 3))
    y = ctx.real('y', *((None, None) if wide else (Q(1, 16), Q(7, 16))), pref=Q(1, 4))
    text, want = [
        (f'{name}(x)', lambda: f(x)),
        (f'-{name}(x + y)*y', lambda: -f(x+y)*y),
        (f'{name}(x)^2', lambda: f(x)*f(x)),
        (f'(x - {name}((x*y)))/y', lambda: (x - f(x*y))/y),
        (f'{name}({name}(x)*0 + y) + x', lambda: f(0*f(x) + y) + x),
        (f'y^2*{name}(x)', lambda: y*y*f(x)),
    ][form]
    if model:
        M = make(['x', 'z'], [], {'y': y}, ['z(-1) + z + z(+1) + x(-1) + x + x(+1) = 0', f'{text} = z'])
        o = ctx.real('o')
        got = M.dynamic_repr(mat(ctx, [o, o, x, o, o, o]))[1]
        ctx.eq(got, want() - o, f'residual of {text} = z')
    else:
        ctx.eq(evaluate(text, {'x': x, 'y': y}), want(), f'value of {text}')
        ctx.eq(evaluate(parse_string(text), {'x': x, 'y': y}), want(), f'value of {text} once parsed')
    try:
        evaluate(f'{name}(x)', {'y': y})
        ctx.fail('value for a name without one')
    except (SyntaxError, KeyError):
        pass


def h_chain(ctx, shape, model, power='^'):
    """long well-formed expressions: operators and signs are symbolic, the rest is fixed"""
    words = shape.split()
    s = []
    for i, w in enumerate(words):
        k = {'x': ['ID'], 'o': ['+', '-', '*', '/', '^'], 's': ['-', '+'], '(': ['('], ')': [')'], 'f': ['exp'],
             'l': ['(', '-', 'exp'], 'r': [')', '^', '*'], 'c': ['<', '<=', '>', '>=', '==']}[w]
        s.append(Slot(ctx, i, k, V[sum(x == 'x' for x in words[:i])], None))
    n = words.count('x')
    (model_value if model else value)(ctx, s, n, power, 'evaluate')


def h_model(ctx, L, first, kinds):
    model_value(ctx, slots(ctx, L, first, kinds), L)


def model_value(ctx, s, L, *_):
    shown = lambda: ' '.join(x.text('^') for x in s)
    try:
        with texts(ctx, s) as text:
            tree = ModelExprs.parse(text)
        ok = True
    except (Exception) as e:
        ok = False
    far = []
    def var(n, t):
        if abs(t) > 1:
            far.append(t)
            return val[n, 0]
        return val[n, t]
    r = Reader(s, var, {**FUNS}, model=True)
    r.trailing = False
    try:
        want = r.whole()
    except Reject:
        if ok:
            ctx.fail(f'{shown()}: accepted')
        else:
            ctx.same(ok, False, 'rejected')
        return
    if not ok:
        # a closing semicolon may or may not be part of the equation
        ctx.same(r.trailing, True, f'{shown()}: rejected')
        return
    val = {(V[i], t): ctx.real(f'v{i}_{t+1}', pref=Q(2*i+t+3, 4)) for t in (-1, 0, 1) for i in range(L)}
    try:
        want = want()
    except (ZeroDivisionError, OverflowError, TypeError):
        raise Infeasible
    if far:
        ctx.same(True, True, 'far period (C04)')
        return
    fixed = ' + '.join(f'{v}(-1) + {v} + {v}(+1)' for v in V[:L]) + ' = 0'
    M = make(V[:L], [], {}, [fixed, tree])
    got = M.dynamic_repr(mat(ctx, [val[V[i], t] for t in (-1, 0, 1) for i in range(L)]))
    same_value(ctx, got[1], want, f'residual of {shown()}')


def h_period(ctx, L):
    """names followed by something in parentheses"""
    s = [Slot(ctx, 0, ['ID'], V[0], None), Slot(ctx, 1, ['('], V[1], None)]
    for i in range(2, L):
        s.append(Slot(ctx, i, ['+', '-', '1', '2', '1.5', ')', 'ID'], V[i], None))
    model_value(ctx, s, L)


SYMBOLS = ['ID', 'NUM', '(', ')', '-', '*', '<=', '>', '>=', '==', ',', ';', '=', '<', 'log']
FEW = ['ID', '-', '*', '^', '(', ')']
CHAINS = ['x o x o x o x o x', 's x o s x o s x', 'x o ( x o x ) o x', 'l x o x r x ) o x', 'x o s s x o x o x', 'x o l x o x ) o x',
          'f ( x o x ) o f ( s x ) o x', '( s x o x ) o s ( x o s x )']


def cases(tier):
    out = []
    quick = tier == 'quick'
    P = patch_all()
    def heads(kinds, L):
        lead = [[k] for k in kinds if k not in ('*', '/', '^', ')', '<', '=')]
        return [None] if L < 4 else lead + [[k for k in kinds if [k] not in lead]]
    def add(name, fn, **params):
        out.append(dict(name=name, fn=fn, params=params, patch=P, weight=params.get('L', 4)**4))
    for L in range(1, 6 if quick else 7):
        for first in heads(EXPR, L):
            add(f'expr-{L}-{"".join(first or ["any"])}', h_expr, L=L, first=first, kinds=EXPR)
        for first in heads(MODEL, L):
            add(f'model-{L}-{"".join(first or ["any"])}', h_model, L=L, first=first, kinds=MODEL)
    for L in (6,) if quick else (6, 7):
        for first in heads(FEW, L):
            add(f'few-{L}-{"".join(first)}', h_expr, L=L, first=first, kinds=FEW)
            add(f'modelfew-{L}-{"".join(first)}', h_model, L=L, first=first, kinds=FEW)
    for L in (1, 2, 3) if quick else (1, 2, 3, 4):
        add(f'symbols-{L}', h_expr, L=L, first=None, kinds=SYMBOLS)
        add(f'model-symbols-{L}', h_model, L=L, first=None, kinds=['ID', '1', '2', '1.5', '(', ')', '-', '=', ';', ',', '<', '==', 'exp'])
    for L in (3, 4):
        add(f'python-{L}', h_expr, L=L, first=None, kinds=['ID', '-', '^', '*', '('], power='**', how='evaluate')
    for first in ('ID',):
        # x ( + 2 ) and the like
        for n in (5, 6) if quick else (5, 6, 7):
            add(f'period-{n}', h_period, L=n)
    for shape in CHAINS + ([] if quick else ['x o x o x o x o x o x', 's x o s x o s x o s x', 'x o ( x o ( x o x ) o x ) o x']):
        add(f'chain-{shape}'.replace(' ', ''), h_chain, shape=shape, model=False)
        add(f'modelchain-{shape}'.replace(' ', ''), h_chain, shape=shape, model=True)
    for shape in ('x o x c x o x', 's x c s x o x', 'x c f ( x )'):
        add(f'compare-{shape}'.replace(' ', ''), h_chain, shape=shape, model=False)
    add('python-chain', h_chain, shape='x o s x o x', model=False, power='**')
    for model in (False, True):
        out.append(dict(name=f'functions-{"model" if model else "expr"}', fn=h_fun, params=dict(model=model), patch=patch_all(extra=functions), weight=50))
    return out
