"""C02: tokenising loses nothing, ignores comments and always terminates."""
import signal
from .common import *
import pynare.parsing.base as base
from pynare.parsing.lexer import BaseLexer, DynareLexer
from pynare.parsing.parser import BaseParser

PROPERTY = 'C02'
BOUNDS = ('every text of up to 5-7 (thorough 6-8) characters over alphabets of letters, digits, period, underscore, white space, line ends, '
          'quotes, % / * and every operator and bracket; keywords followed by arbitrary characters; both the general and the model-file lexer')
ASSUMPTIONS = ['characters outside the alphabets (non-ASCII letters and digits among them) are not covered', 'only the method of the str type applied '
               'to a single character matters, not how the lexer scans the text']
SYM = {'+': 'PLUS', '-': 'MINUS', '*': 'MUL', '/': 'DIV', '=': 'EQUALS', ',': 'COMMA', ';': 'SEMI', ':': 'COLON', '#': 'POUND',
       '&': 'AMPERSAND', '|': 'PIPE', '@': 'ATSIGN', '!': 'EXCLAMATION', '~': 'TILDE', '\\': 'BACKSLASH', '<': 'LT', '>': 'GT',
       '(': 'LPARE', ')': 'RPARE', '[': 'LBRACKET', ']': 'RBRACKET', '{': 'LBRACE', '}': 'RBRACE', '<=': 'LTOE', '>=': 'GTOE',
       '==': 'EQUALITY', '%': 'PERCENT'}
KEYWORDS = ('var', 'varexo', 'varexo_det', 'parameters', 'model', 'end', 'initval', 'endval', 'histval', 'shocks', 'periods', 'values',
            'corr', 'stderr')
FUNCTIONS = ('exp', 'log', 'ln', 'log10', 'sqrt', 'abs', 'sign', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'erf')


class Endless(Exception):
    pass


class limit:
    """what runs inside has to end"""
    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def stop(*_):
            raise Endless('does not terminate')
        self.old = signal.signal(signal.SIGALRM, stop)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


class Char:
    """a character of the text: one of a few, decided only where the code asks"""
    def __init__(self, ctx, i, options):
        self.ctx, self.left = ctx, list(options)
        self.enum = ctx.enum(f'char{i}', list(options)) if len(self.left) > 1 else None

    def among(self, pred):
        yes = [k for k in self.left if pred(k)]
        if not yes or len(yes) == len(self.left):
            return bool(yes)
        hit = self.enum.among(lambda k: k in yes)
        self.left = yes if hit else [k for k in self.left if k not in yes]
        return hit

    def one(self):
        while len(self.left) > 1:
            k = self.left[0]
            self.among(lambda o: o == k)
        return self.left[0]

    def __eq__(self, o):
        if isinstance(o, Char):
            return self is o or self.one() == o.one()
        return self.among(lambda k: k == o)

    def __ne__(self, o):
        return not self == o

    def __lt__(self, o): return self.among(lambda k: k < str(o))
    def __le__(self, o): return self.among(lambda k: k <= str(o))
    def __gt__(self, o): return self.among(lambda k: k > str(o))
    def __ge__(self, o): return self.among(lambda k: k >= str(o))
    def __hash__(self): return hash(self.one())
    def __str__(self): return self.one()
    def __repr__(self): return repr(self.one())
    def __len__(self): return 1
    def __bool__(self): return True
    def __add__(self, o): return self.one() + str(o)
    def __radd__(self, o): return o + self.one()
    def __getitem__(self, i): return self.one()[i]

    def __getattr__(self, name):
        if not hasattr(str, name):
            raise AttributeError(name)
        if name.startswith('is'):
            return lambda: self.among(lambda k: getattr(k, name)())
        return getattr(self.one(), name)


class Text:
    def __init__(self, chars):
        self.chars = chars

    def __len__(self):
        return len(self.chars)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return Text(self.chars[i])
        return self.chars[i]

    def __iter__(self):
        return iter(self.chars)

    def __str__(self):
        return ''.join(c.one() for c in self.chars)

    def __eq__(self, o):
        return len(self) == len(o) and all(a == b for a, b in zip(self.chars, o))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(str(self))

    def __add__(self, o):
        return str(self) + str(o)

    def __radd__(self, o):
        return o + str(self)

    def startswith(self, o, at=0):
        if isinstance(o, tuple):
            return any(self.startswith(x, at) for x in o)
        return Text(self.chars[at:at+len(o)]) == o

    def __getattr__(self, name):
        if not hasattr(str, name):
            raise AttributeError(name)
        return getattr(str(self), name)


class Fixed:
    """a known character, for the concrete twin of the reference"""
    def __init__(self, c):
        self.c = c

    def among(self, pred):
        return bool(pred(self.c))

    def one(self):
        return self.c


class Reject(Exception):
    pass


def reference(cs, dynare, python):
    """the tokens of the text. yields None where rejecting the text is the only other right answer"""
    p, out = 0, []
    at = lambda i, pred: i < len(cs) and cs[i].among(pred)
    is_ = lambda i, s: at(i, lambda c: c in s)
    while p < len(cs):
        if at(p, str.isspace):
            p += 1
        elif dynare and (is_(p, '%') or is_(p, '/') and is_(p+1, '/')):
            while p < len(cs) and not is_(p, '\n'):
                p += 1
        elif dynare and is_(p, '/') and is_(p+1, '*'):
            p += 2
            while not (is_(p, '*') and is_(p+1, '/')):
                if p >= len(cs):
                    raise Reject('comment not closed')
                p += 1
            p += 2
        elif is_(p, '"\''):
            q = '"' if is_(p, '"') else "'"
            e = p+1
            while not is_(e, q):
                if e >= len(cs):
                    raise Reject('string not closed')
                e += 1
            out.append(('STRING', ''.join(c.one() for c in cs[p+1:e])))
            p = e+1
        elif at(p, lambda c: c.isdigit() or c == '.'):
            e = p
            while at(e, lambda c: c.isdigit() or c == '.'):
                e += 1
            s = ''.join(c.one() for c in cs[p:e])
            if s.count('.') > 1 or s == '.':
                raise Reject('not a number')
            out.append(('NUMBER', int(s.replace('.', ''))/10**len(s.partition('.')[2])))
            p = e
        elif at(p, lambda c: c.isalpha() or c == '_' and not dynare):
            e = p
            while at(e, lambda c: c.isalnum() or c == '_'):
                e += 1
            s = ''.join(c.one() for c in cs[p:e])
            out.append(('FUNCTION' if s in FUNCTIONS else s if dynare and s in KEYWORDS else 'ID', s))
            p = e
        elif not python and is_(p, '^') or python and is_(p, '*') and is_(p+1, '*'):
            out.append(('POWER', '**'))
            p += 2 if python else 1
        elif is_(p, '<>=') and is_(p+1, '='):
            s = cs[p].one() + '='
            out.append((getattr(base, SYM[s]), s))
            p += 2
        else:
            c = cs[p].one()
            if c not in SYM:
                raise Reject('unknown symbol')
            out.append((getattr(base, SYM[c]), c))
            p += 1
    return [({'STRING': base.STRING, 'NUMBER': base.NUMBER, 'ID': base.ID, 'FUNCTION': base.FUNCTION, 'POWER': base.POWER}.get(t, t), v)
            for t, v in out]


def h_text(ctx, alphabet, L, lexer='dynare', first=None, head='', tail='', case=False):
    dynare, python = lexer == 'dynare', lexer == 'python'
    opts = [[c, c.upper()] if case and c.isalpha() and i in (0, len(head)-1) else [c] for i, c in enumerate(head)] + [list(first) if i == 0 and first else list(alphabet) for i in range(L)] + [[c] for c in tail]
    if ctx.sym:
        chars = [Char(ctx, i, o) for i, o in enumerate(opts)]
        text, ref = Text(chars), chars
        shown = lambda: repr(str(text))
    else:
        text = ''.join(ctx.enum(f'char{i}', o) if len(o) > 1 else o[0] for i, o in enumerate(opts))
        ref = [Fixed(c) for c in text]
        shown = lambda: repr(text)
    def lex(text):
        got = []
        with limit(20 if ctx.sym else 5):
            parser = BaseParser(DynareLexer(text) if dynare else BaseLexer(text, exp='python' if python else 'standard'))
            while parser.current_token.type != base.EOF:
                t = parser.current_token
                got.append((t.type, t.value))
                parser.eat(t.type)
        return got

    try:
        try:
            got = lex(text)
        except (TypeError, AttributeError, ValueError):
            if not ctx.sym:
                raise
            # perhaps an operation of real strings only: every character is chosen by the solver, then
            got = lex(str(text))
    except Endless:
        ctx.fail(f'{shown()}: does not terminate')
        return
    except MemoryError:
        raise
    except Exception as e:
        got = type(e).__name__
    try:
        want = reference(ref, dynare, python)
    except Reject as e:
        if isinstance(got, str):
            ctx.same(True, True, 'rejected')
        else:
            ctx.fail(f'{shown()}: accepted as {got} though {e}')
        return
    if isinstance(got, str):
        ctx.fail(f'{shown()}: rejected with {got}')
        return
    same = len(got) == len(want) and all(a[0] == b[0] and a[1] == b[1] for a, b in zip(got, want))
    ctx.same(same, True, f'tokens {got} of {shown()} instead of {want}' if not same else 'tokens')


CODE = 'a1 +/*%\n'
COMMENT = 'a/*%\n'
QUOTES = 'a"\'%/\n '
WORDS = 'lnex_1 +'
NUMBERS = '07.e -'
OPERATORS = '<>=*/^+-'
ALL = 'a0 \t\n\r%/*"\'+-^=<>(){}[],;:.#&|@!~\\_$?`'


def cases(tier):
    out = []
    quick = tier == 'quick'
    P = patch_all()
    def add(kind, alphabet, L, split=False, **kw):
        for f in (alphabet if split else [None]):
            out.append(dict(name=f'{kind}-{L}' + (f'-{ord(f)}' if f else ''), fn=h_text, params=dict(alphabet=alphabet, L=L, first=f, **kw), patch=P,
                            weight=len(alphabet)**min(L, 4), opts=dict(validate_p=0.005)))
    d = 0 if quick else 1
    for L in range(0, 6+d):
        add('comments', COMMENT, L, L > 4)
    add('comments', '/*\na', 7+d, True)
    add('comments-between', '/*%\n', 4+d, head='x', tail='*/ y')
    add('comments-inside', '/*a\n', 4+d, head='x /*', tail='*/ + y % z')
    for L in (2, 4+d):
        add('quotes', QUOTES, L, L > 3)
        add('code', CODE, L, L > 3)
        add('words', WORDS, L, L > 3)
        add('numbers', NUMBERS, L, L > 3)
        for lexer in ('standard', 'python'):
            add(f'operators-{lexer}', OPERATORS + 'a ', L, L > 3, lexer=lexer)
        add('operators', OPERATORS + 'a ', L, L > 3)
    for lexer in ('standard', 'python'):
        add(f'words-{lexer}', 'ln_1 +', 4+d, True, lexer=lexer)
        add(f'numbers-{lexer}', NUMBERS, 4+d, True, lexer=lexer)
        add(f'all-{lexer}', ALL, 2+d, lexer=lexer)
    add('all', ALL, 2+d)
    for w in KEYWORDS + FUNCTIONS:
        add(f'keyword-{w}', ' a1_;/%\n(', 2, head=w, tail='x')
        add(f'keyword-case-{w}', 'A (', 1, head=w, tail='x', case=True)
        add(f'keyword-end-{w}', 'a1_;/%\n', 1, head=f'y {w} ', tail=' '+w)
    return out
