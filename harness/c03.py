"""C03: a model file is read faithfully or rejected."""
import os, re, tempfile
from .common import *
from . import tokens
from .tokens import Slot, texts, SymTok, OPS
from .eqs import no_statespace, exp, sqrt
from .c02 import limit, Endless
import pynare.parsing.base as base
from pynare.parsing import read_model
from pynare.core.model import Model

PROPERTY = 'C03'
BOUNDS = ('files of about 60-130 tokens with up to 3 endogenous variables, 2 shocks, 3 parameters: every symbolic value of every number; every choice of '
          'optional blocks, block order, declaration order, separators and kind of shock moment; in two complete files every single-token replacement, '
          'deletion, insertion and truncation (thorough: also two replacements at a distance of up to 2)')
ASSUMPTIONS = ['the lexer is taken from C02: placeholder words of the text are read as the chosen token', 'the state space is not built (C10)',
               'square roots and exp are uninterpreted functions', 'not judged: parameters assigned more than once or left without a value, '
               'repeated boundary blocks, deterministic shocks, files with other commands']
TYPES = ('var', 'varexo', 'varexo_det', 'parameters')
KEYS = TYPES + ('model', 'end', 'initval', 'endval', 'histval', 'shocks', 'corr', 'stderr', 'periods', 'values')
MORE = {'#': base.POUND, '[': base.LBRACKET, ']': base.RBRACKET, ':': base.COLON}


class Word(Slot):
    """a position of the file: fixed or symbolic"""
    def __init__(self, ctx, i, options, literal=None):
        self.ctx, self.i, self.options, self.left = ctx, i, list(options), list(options)
        self.enum = ctx.enum(f'token{i}', self.options) if len(self.options) > 1 else self.options[0]
        self.literal = literal

    def among(self, pred):
        if len(self.left) == 1:
            return bool(pred(self.left[0]))
        return super().among(pred)

    def type_of(self, k):
        if k in OPS:
            return OPS[k][0]
        if k in MORE:
            return MORE[k]
        if k == 'EOF':
            return base.EOF
        if k[0] in '\'"':
            return base.STRING
        if k[0].isdigit() or k == 'NUM':
            return base.NUMBER
        return k if k in KEYS else base.FUNCTION if k == 'exp' else base.ID

    def value(self):
        k = self.kind()
        if k in OPS:
            return OPS[k][1]
        if k == 'NUM':
            return self.literal
        if k[0].isdigit():
            return float(k)
        return None if k == 'EOF' else k.strip('\'"') if k[0] in '\'"' else k

    def kind(self):
        if len(self.left) == 1 or not self.ctx.sym:
            return self.left[0] if len(self.left) == 1 else self.enum
        return super().kind()

    def text(self, power='^'):
        k = self.kind()
        if k == 'NUM':
            x = self.literal
            return repr(float(x)) if not isinstance(x, alg.Sym) or x.is_const() else 'NUM'
        return '' if k == 'EOF' else k


class file_text(texts):
    def __enter__(self):
        if not self.ctx.sym:
            out = []
            for s in self.slots:
                if s.kind() == 'EOF':
                    break
                out.append(s.text())
            return ' '.join(out)
        table = {f'{tokens.WORD}{s.i}': s for s in self.slots if len(s.options) > 1 or s.options[0] == 'NUM'}
        self.saved = []
        for d, k, new in replace_fn(base.Token, tokens.factory(table)):
            self.saved.append((d, k, d[k]))
            d[k] = new
        return ' '.join(f'{tokens.WORD}{s.i}' if len(s.options) > 1 or s.options[0] == 'NUM' else s.text() for s in self.slots)


class Reject(Exception):
    pass


class Unjudged(Exception):
    pass


class File:
    """the meaning of a sequence of words"""
    CMP = ('<', '<=', '>', '>=', '==')

    def __init__(self, words):
        self.w, self.p = words, 0
        self.types, self.order = {}, {t: [] for t in TYPES}
        self.params, self.locals, self.helpers = {}, {}, {}
        self.equations, self.uses = [], set()
        self.bounds = {'initval': {}, 'endval': {}, 'histval': {}}
        self.moments = []
        self.unjudged = None

    # scanning
    def at(self, *kinds):
        return self.is_(lambda k: k in kinds)

    def is_(self, pred):
        return self.p < len(self.w) and not self.over() and self.w[self.p].among(pred)

    def over(self):
        return self.p >= len(self.w) or self.w[self.p].among(lambda k: k == 'EOF')

    def next(self):
        self.p += 1
        return self.w[self.p-1]

    def need(self, *kinds):
        if not self.at(*kinds):
            raise Reject(f'expected {kinds}')
        return self.next()

    name_like = staticmethod(lambda k: re.fullmatch('[A-Za-z]\\w*', k) and k not in KEYS and k not in ('exp', 'NUM', 'EOF'))
    number_like = staticmethod(lambda k: k == 'NUM' or k[0].isdigit())

    def name(self):
        if not self.is_(self.name_like):
            raise Reject('expected a name')
        return self.next().kind()

    # expressions: a function of (name, period) -> value; names used are noted
    def expr(self, used, periods=False, lo=1):
        v = self.factor(used, periods)
        ops = {'+': 1, '-': 1, '*': 2, '/': 2}
        while self.is_(lambda k: ops.get(k, 0) >= lo):
            op = self.next().kind()
            r = self.expr(used, periods, ops[op]+1)
            v = (lambda a, b: {'+': lambda e: a(e)+b(e), '-': lambda e: a(e)-b(e), '*': lambda e: a(e)*b(e), '/': lambda e: a(e)/b(e)}[op])(v, r)
        return v

    def factor(self, used, periods):
        if self.at('-'):
            self.next()
            return (lambda a: lambda e: -a(e))(self.factor(used, periods))
        if self.at('+'):
            self.next()
            return self.factor(used, periods)
        b = self.primary(used, periods)
        if self.at('^'):
            self.next()
            return (lambda a, x: lambda e: a(e)**x(e))(b, self.factor(used, periods))
        return b

    def primary(self, used, periods):
        if self.at('('):
            self.next()
            v = self.expr(used, periods)
            self.need(')')
            return v
        if self.is_(self.number_like):
            v = self.next().value()
            return lambda e: v
        if self.at('exp'):
            self.next()
            self.need('(')
            v = self.expr(used, periods)
            self.need(')')
            return lambda e: exp(v(e))
        n = self.name()
        t = 0
        if periods and self.at('('):
            self.next()
            s = 1 if self.need('+', '-').kind() == '+' else -1
            if not self.is_(self.number_like):
                raise Reject('expected a number')
            x = self.next().value()
            self.need(')')
            if x != int(x):
                raise Reject('period')
            t = s*int(x)
            used.append((n, t, True))
        else:
            used.append((n, 0, False))
        return lambda e: e(n, t)

    # blocks
    def read(self):
        decl, assign = [], []
        while not self.at('model'):
            if self.at(*TYPES):
                t = self.next().kind()
                if self.at(','):
                    self.unjudged = 'leading comma'
                if self.at(';'):
                    self.unjudged = 'empty declaration'
                while self.at(',') or self.is_(self.name_like):
                    if self.at(','):
                        self.next()
                    decl.append((self.name(), t))
                self.need(';')
            else:
                n = self.name()
                self.need('=')
                used = []
                v = self.expr(used)
                self.need(';')
                assign.append((n, v, used))
        self.next()
        self.arguments()
        self.need(';')
        stmts = []
        while not self.at('end'):
            if self.at('#'):
                self.next()
                n = self.name()
                self.need('=')
                used = []
                v = self.expr(used, True)
                stmts.append(('local', n, v, used))
            else:
                if self.at('['):
                    self.next()
                    while True:
                        self.name()
                        if self.at('='):
                            self.next()
                            if not self.is_(lambda k: k[0] in '\'"'):
                                raise Reject('tag')
                            self.next()
                        if not self.at(','):
                            break
                        self.next()
                    self.need(']')
                used = []
                l = self.expr(used, True)
                r = lambda e: 0
                if self.at('='):
                    self.next()
                    r = self.expr(used, True)
                stmts.append(('equation', None, (lambda l, r: lambda e: l(e) - r(e))(l, r), used))
            self.need(';')
        self.next()
        self.need(';')
        bounds, shocks = [], []
        while not self.over():
            if self.at('initval', 'endval', 'histval'):
                b = self.next().kind()
                self.arguments()
                self.need(';')
                if any(x == b for x, _ in bounds):
                    self.unjudged = 'repeated boundary block'
                vals = []
                while not self.at('end'):
                    n = self.name()
                    self.need('=')
                    used = []
                    v = self.expr(used)
                    self.need(';')
                    vals.append((n, v, used))
                self.next()
                self.need(';')
                bounds.append((b, vals))
            elif self.at('shocks'):
                self.next()
                self.arguments()
                self.need(';')
                while self.at('var', 'corr'):
                    k = self.next().kind()
                    a = self.name()
                    used = []
                    if self.at(','):
                        self.next()
                        b = self.name()
                        self.need('=')
                        shocks.append(('corr' if k == 'corr' else 'cov', a, b, self.expr(used), used))
                    elif k == 'corr':
                        raise Reject('partner')
                    elif self.at('='):
                        self.next()
                        shocks.append(('variance', a, None, self.expr(used), used))
                    else:
                        self.need(';')
                        if self.at('periods'):
                            raise Unjudged('deterministic shock')
                        self.need('stderr')
                        shocks.append(('stderr', a, None, self.expr(used), used))
                    self.need(';')
                self.need('end')
                self.need(';')
            else:
                # other commands are not understood
                raise Unjudged('command')
        self.meaning(decl, assign, stmts, bounds, shocks)
        return self

    def arguments(self):
        if self.at('('):
            self.next()
            while True:
                self.name()
                if self.at('='):
                    self.next()
                    if self.is_(lambda k: k[0] in '\'"'):
                        self.next()
                    elif self.is_(self.name_like):
                        self.next()
                    else:
                        self.expr([])
                if not self.at(','):
                    break
                self.next()
            self.need(')')

    def meaning(self, decl, assign, stmts, bounds, shocks):
        for n, t in decl:
            if n in self.types:
                raise Reject(f'{n} declared twice')
            self.types[n] = t
            self.order[t].append(n)
        known = {}
        def value(v, used, scope, what):
            for n, _, period in used:
                if n not in scope or period:
                    raise Reject(f'{n} has no value in {what}')
            return v(lambda n, t: scope[n])
        for n, v, used in assign:
            if self.types.get(n, 'parameters') != 'parameters':
                raise Reject(f'{n} is not a parameter')
            if n in self.params or n in self.helpers and self.types.get(n):
                self.unjudged = 'reassigned'
            for m, _, _ in used:
                if m not in known and self.types.get(m) == 'parameters':
                    self.unjudged = 'parameter used before it has a value'
            x = value(v, used, known, n) if not self.unjudged else None
            known[n] = x
            (self.params if self.types.get(n) else self.helpers)[n] = x
        for n in self.order['parameters']:
            if n not in self.params:
                self.unjudged = 'parameter without value'
        scope = dict(self.params)
        for kind, n, v, used in stmts:
            if kind == 'local':
                if n in self.types or n in self.locals or n in self.helpers:
                    raise Reject(f'{n} declared twice')
                if self.unjudged:
                    self.locals[n] = None
                    continue
                self.locals[n] = scope[n] = value(v, used, scope, n)
                continue
            for m, t, period in used:
                ty = self.types.get(m)
                if m in self.locals:
                    ty = 'local'
                if ty is None:
                    raise Reject(f'{m} not declared')
                if ty == 'varexo_det':
                    raise Unjudged('deterministic variable in the model')
                if ty != 'var' and period:
                    raise Unjudged('zero offset') if t == 0 else Reject(f'{m} out of period')
                if abs(t) > 1:
                    raise Reject('period')
                if ty == 'var':
                    self.uses.add((m, t))
            self.equations.append(v)
        if not self.equations:
            raise Unjudged('no equation')
        for n in self.order['var']:
            if not any(m == n for m, _ in self.uses):
                raise Reject(f'{n} not used')
        for b, vals in bounds:
            own = dict(known)
            for n, v, used in vals:
                if self.types.get(n) != 'var':
                    raise Reject(f'{n} has no boundary values')
                if self.unjudged:
                    continue
                self.bounds[b][n] = own[n] = value(v, used, own, b)
        for kind, a, b, v, used in shocks:
            for n in (a, b):
                if n is not None and self.types.get(n) == 'varexo_det':
                    raise Unjudged('deterministic shock')
                if n is not None and self.types.get(n) != 'varexo':
                    raise Reject(f'{n} is no shock')
            if a == b:
                raise Unjudged('moment with itself')
            if not self.unjudged:
                self.moments.append((kind, a, b, value(v, used, known, 'shocks')))
        if self.unjudged:
            raise Unjudged(self.unjudged)
        if not self.order['var']:
            raise Unjudged('no variables')
        pairs = {}
        for kind, a, b, _ in self.moments:
            if b is not None:
                pairs.setdefault(frozenset((a, b)), set()).add((kind, a))
        if any(len(x) > 1 for x in pairs.values()):
            raise Unjudged('conflicting moments')

    def sigma(self):
        n = self.order['varexo']
        S = {(s, t): 1.0 if s == t else 0.0 for s in n for t in n}
        for kind, a, b, x in self.moments:
            if kind in ('variance', 'stderr'):
                S[a, a] = x*x if kind == 'stderr' else x
        for kind, a, b, x in self.moments:
            if b is not None:
                S[a, b] = S[b, a] = x if kind == 'cov' else x*sqrt(0*x + S[a, a]*S[b, b])
        return S


def judge(ctx, words, path=False):
    shown = lambda: ' '.join(w.text() for w in words)
    built = None
    try:
        with limit(30 if ctx.sym else 5), file_text(ctx, words) as text, no_statespace():
            if path and not ctx.sym:
                with tempfile.TemporaryDirectory() as d:
                    with open(os.path.join(d, 'some.mod'), 'w') as f:
                        f.write(text)
                    M = Model.from_path(os.path.join(d, 'some.mod'))
            else:
                M = Model.from_outline(read_model(text, 'dynare'))
            np.shape(M.sigma)
            built = M
        error = None
    except Endless:
        ctx.fail(f'{shown()}: does not terminate')
        return
    except (MemoryError, ZeroDivisionError, OverflowError):
        raise Infeasible
    except Exception as e:
        error = f'{type(e).__name__} {e}'
    try:
        F = File(words).read()
    except (ZeroDivisionError, OverflowError):
        raise Infeasible
    except Reject as e:
        # what is wrong may show only once the equations are evaluated, which every use of the model begins with
        if built is not None:
            try:
                M.dynamic_repr(mat(ctx, [const(ctx, Q(k+3, 7)) for k in range(M.dynamic_repr.n_vars)]))
            except (ZeroDivisionError, OverflowError):
                raise Infeasible
            except Exception:
                ctx.same(True, True, 'rejected when evaluated')
                return
            ctx.fail(f'{shown()}: accepted though {e}')
        else:
            ctx.same(True, True, 'rejected')
        return
    except Unjudged as e:
        ctx.same(True, True, 'either')
        return
    if error:
        ctx.fail(f'{shown()}: rejected with {error}')
        return
    # everything declared, nothing else
    var, exo, det = F.order['var'], F.order['varexo'], F.order['varexo_det']
    ctx.same([str(x) for x in M.endog.names], var, 'endogenous variables')
    ctx.same([str(x) for x in M.stoch.names], exo, 'stochastic variables')
    ctx.same([str(x) for x in M.determ.names] if len(M.determ) else [], det, 'deterministic variables')
    par = dict(M.params)
    ctx.same(sorted(par), sorted(F.order['parameters']), 'parameters')
    for n, v in F.params.items():
        ctx.eq(par[n], v, f'parameter {n}')
    loc = dict(M.local_params)
    ctx.same(sorted(loc), sorted(F.locals), 'model-local names')
    for n, v in F.locals.items():
        ctx.eq(loc[n], v, f'model-local {n}')
    for kind, got in (('initval', M.initial), ('endval', M.terminal), ('histval', M.historical)):
        ctx.same(np.shape(got), (len(var),), f'{kind} values')
        for i, n in enumerate(var):
            if n in F.bounds[kind]:
                ctx.eq(got[i], F.bounds[kind][n], f'{kind} {n}')
            elif kind == 'initval':
                ctx.eq(got[i], 0, f'initial value of {n}, not given')
            else:
                g = got[i]
                ctx.same(g is None or not isinstance(g, Sym) and bool(np.isnan(float(g))), True, f'{kind} {n}, not given')
    S = F.sigma()
    got = M.sigma
    ctx.same(np.shape(got), (len(exo), len(exo)), 'covariance')
    for i, s in enumerate(exo):
        for j, t in enumerate(exo):
            ctx.eq(got[i, j], S[s, t], f'covariance of {s} and {t}')
    inc = [(n, t) for t in (-1, 0, 1) for n in var if (n, t) in F.uses]
    vals = {x: ctx.real(f'x_{x[0]}_{x[1]+1}', lo=Q(1, 2), hi=4, pref=Q(2*k+3, 4)) for k, x in enumerate(inc)}
    for k, s in enumerate(exo):
        vals[s, 0] = ctx.real(f'u_{s}', pref=Q(k+1, 3))
    pt = mat(ctx, [vals[x] for x in inc] + [vals[s, 0] for s in exo])
    res = M.dynamic_repr(pt)
    ctx.same(np.shape(res), (len(F.equations),), 'equations')
    known = {**F.params, **F.locals}
    for k, e in enumerate(F.equations):
        try:
            want = e(lambda n, t: vals[n, t] if (n, t) in vals else known[n])
        except (ZeroDivisionError, OverflowError):
            raise Infeasible
        if not ctx.sym and (isinstance(want, complex) or not np.isfinite(want)):
            raise Infeasible
        ctx.eq(res[k], want, f'equation {k}')


def words_of(text):
    return re.findall(r"'[^']*'|\"[^\"]*\"|[A-Za-z]\w*|\d+\.?\d*|[<>=]=|\S", text)


BASE = {
    'full': """h = 0.5; var y, c; varexo e, u; parameters a b; a = h + 0.25; b = 2*a;
        model(linear); # z = a + b; [name='first'] y = a*y(-1) + z*c(+1) - e; c = b*y + u; end;
        initval; y = a; end; histval; c = 3; end; endval; y = 4; end;
        shocks; var e; stderr 2; var u = b; corr e, u = 0.3; end;""",
    'short': """var x y; varexo w; parameters r; r = 0.9;
        model; x = r*x(-1) + w; 2*y - x^2; end; shocks; var w = 4; end; initval; x = 1; y = x + r; end;""",
    'exp': """parameters q s; varexo v k; q = 2; var p; s = 3;
        shk = q; model; p*(1 + q) = exp(-p(+1)/s) + v*k; end; shocks; var k, v = 0.5; end;
        endval; p = shk; end; shocks; var k = q; end;""",
}
POOL = ['y', 'e', 'a', 'h', 'z', 'nn', '1', '1.5', '-', '*', '(', ')', '=', ',', ';', 'var', 'parameters', 'model', 'end', 'initval', 'stderr', 'EOF',
        '#', '[', 'exp', "'s'"]


def h_mutated(ctx, name, lo, hi, second=0):
    ws = words_of(BASE[name])
    p = ctx.choice('position', list(range(lo, min(hi, len(ws)))))
    op = ctx.choice('change', ['replace', 'insert', 'delete', 'double'] if not second else ['replace'])
    sub = {'short': {'y': 'x', 'e': 'w', 'a': 'r'}, 'exp': {'y': 'p', 'e': 'v', 'a': 'q', 'h': 'shk', 'z': 's'}}.get(name, {})
    pool = list(dict.fromkeys(sub.get(k, k) for k in POOL))
    words, k = [], 0
    def add(opts):
        words.append(Word(ctx, len(words), opts))
    for i, w in enumerate(ws):
        if i == p and op == 'replace' or second and i == p+second:
            add(pool)
        elif i == p and op == 'insert':
            add(pool)
            add([w])
        elif i == p and op == 'delete':
            continue
        elif i == p and op == 'double':
            add([w])
            add([w])
        else:
            add([w])
    judge(ctx, words)


def h_template(ctx, kind):
    """optional parts in any order, all numbers symbolic"""
    T, lits = [], [0]
    def w(text):
        T.extend(words_of(text))
    ch = lambda n, o: ctx.choice(n, list(o))
    sep = ch('separator', [', ', ' ']) if kind == 'declare' else ', '
    if kind == 'declare':
        var = ch('variables', [('y', 'c', 'k'), ('k', 'c', 'y'), ('c', 'y', 'k')])
        exo = ch('shocks', [('e', 'u'), ('u', 'e')])
        par = ch('parameters', [('a', 'b'), ('b', 'a')])
        blocks = [f'var {sep.join(var[:2])};', f'var {var[2]};', f'varexo {sep.join(exo)};', f'parameters {sep.join(par)};', 'varexo_det d;']
        r = ch('rotate', range(len(blocks)))
        blocks = blocks[r:] + blocks[:r]
        at = ch('assign at', (1, 3, 5))
        blocks.insert(at, 'm = NUM; a = NUM; b = a*m - NUM;')
        w(' '.join(blocks))
    elif kind == 'three':
        w('var y, c; varexo e, u, v; parameters a; a = NUM; model; y = a*y(-1) + e - v; c = NUM*c(+1) + u; end; shocks;')
        m = {'': '', 'ceu': 'var e, u = NUM;', 'cue': 'var u, e = NUM;', 'reu': 'corr e, u = NUM;', 'rue': 'corr u, e = NUM;',
             'cev': 'var e, v = NUM;', 'cve': 'var v, e = NUM;', 'rev': 'corr e, v = NUM;', 'rve': 'corr v, e = NUM;', 'ruv': 'corr u, v = NUM;'}
        one = ch('pair 1', ['ceu', 'cue', 'reu', 'rue'])
        two = ch('pair 2', ['cev', 'cve', 'rev', 'rve'])
        three = ch('pair 3', ['', 'ruv'])
        var = ch('variance', ['', 'var e = NUM;', 'var u; stderr NUM;'])
        parts = [m[one], m[two], m[three], var]
        r = ch('rotate', range(4))
        w(' '.join(parts[r:] + parts[:r]) + ' end;')
    else:
        w('var y, c, k; varexo e, u; parameters a b; a = NUM; m = a/NUM; b = NUM - a*m;')
    first = 'y = a*y(-1) + NUM*c(+1) - e;'
    if kind == 'model':
        args = ch('arguments', ['', '(linear)', "(linear, block = 'yes', n = NUM)"])
        loc = ch('locals', ['', '# z = a*NUM;', '# z = NUM/b; # zz = z - a;'])
        tag = ch('tag', ['', "[name = 'one']", "[name = 'one', mcp = 'y > 0', static]"])
        use = 'zz*z' if 'zz' in loc else 'z' if loc else 'b'
        form = ch('form', ['k = NUM*k(-1) + Z;', 'k - NUM^2*k(-1) - Z;', 'NUM = k(+1)/Z;'])
        mid = ch('place', [0, 1])
        eqs = [tag + ' ' + first, f'c = {use}*k - u;', form.replace('Z', use)]
        w(f'model{args};')
        if mid:
            w(' '.join([eqs[0], loc] + eqs[1:]))
        else:
            w(' '.join([loc] + eqs))
        w('end;')
    elif kind != 'three':
        w(f'model; {first} c = b*k - u; k = NUM*k(-1) + b; end;')
    act = {'i': 'initval; y = NUM; k = y*a; end;', 't': 'endval; c = NUM; y = -NUM; end;', 'h': 'histval; k = NUM; c = NUM + m; end;',
           's': 'shocks; var e = NUM; var u; stderr NUM; end;'}
    if kind == 'blocks':
        order = ch('order', ['', 'i', 't', 'h', 's', 'it', 'ti', 'ih', 'hi', 'th', 'ht', 'ths', 'sht', 'iths', 'shti', 'tsih', 'hits', 'is', 'sh'])
        w(' '.join(act[o] for o in order))
    elif kind == 'shocks':
        m = {'ve': 'var e = NUM;', 'vu': 'var u = NUM*a;', 'se': 'var e; stderr NUM;', 'su': 'var u; stderr m;', 'r': 'corr e, u = NUM;',
             'q': 'corr u, e = a;', 'c': 'var e, u = NUM;', 'd': 'var u, e = m - NUM;'}
        a = ch('moment 1', ['', 've', 'se'])
        b = ch('moment 2', ['', 'vu', 'su'])
        c = ch('pair', ['', 'r', 'q', 'c', 'd'])
        perm = ch('order', [(0, 1, 2), (2, 1, 0), (1, 2, 0)])
        split = ch('split', [0, 1, 2])
        parts = [m.get((a, b, c)[i], '') for i in perm]
        if split:
            w('shocks; ' + ' '.join(parts[:split]) + ' end; ' + act['t'] + ' shocks; ' + ' '.join(parts[split:]) + ' end;')
        else:
            w('shocks; ' + ' '.join(parts) + ' end;')
    elif kind == 'declare':
        w('initval; k = NUM; end; shocks; var u = NUM; end;')
    words = []
    for i, x in enumerate(T):
        lit = None
        if x == 'NUM':
            lit = ctx.real(f'n{i}', lo=Q(1, 4) if T[i-1] == '/' else 0, hi=8, pref=Q(2*(i % 11)+3, 4))
        words.append(Word(ctx, i, [x], lit))
    judge(ctx, words, path=True)


def cases(tier):
    out = []
    quick = tier == 'quick'
    P = patch_all()
    for name in BASE:
        n = len(words_of(BASE[name]))
        for lo in range(0, n, 4):
            out.append(dict(name=f'token-{name}-{lo}', fn=h_mutated, params=dict(name=name, lo=lo, hi=lo+4), patch=P, weight=5))
            if not quick:
                for d in (1, 2):
                    if lo >= n-d:
                        continue
                    out.append(dict(name=f'tokens-{name}-{lo}-{d}', fn=h_mutated, params=dict(name=name, lo=lo, hi=min(lo+4, n-d), second=d), patch=P, weight=9))
    for kind in ('declare', 'model', 'blocks', 'shocks', 'three'):
        out.append(dict(name=f'template-{kind}', fn=h_template, params=dict(kind=kind), patch=P, weight=50))
    return out
