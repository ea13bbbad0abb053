"""Symbolic token sequences: the real lexer reads a text of placeholder words, and every word becomes
a token whose kind is one of a finite list, decided only where the code asks for it."""
import sys
from .common import *
import pynare.parsing.base as base
from pynare.parsing.base import Token

# kind: token type, token value, text
OPS = {'+': (base.PLUS, '+'), '-': (base.MINUS, '-'), '*': (base.MUL, '*'), '/': (base.DIV, '/'), '^': (base.POWER, '**'),
       '(': (base.LPARE, '('), ')': (base.RPARE, ')'), '<': (base.LT, '<'), '<=': (base.LTOE, '<='), '>': (base.GT, '>'),
       '>=': (base.GTOE, '>='), '==': (base.EQUALITY, '=='), '=': (base.EQUALS, '='), ',': (base.COMMA, ','), ';': (base.SEMI, ';')}
WORD = 'tokw'


def number_value(text):
    return float(text)


class Slot:
    """position i of the text"""
    def __init__(self, ctx, i, options, ident, literal):
        self.ctx, self.i, self.options = ctx, i, list(options)
        self.left = list(options)
        self.enum = ctx.enum(f'token{i}', self.options)
        self.ident, self.literal = ident, literal

    def among(self, pred):
        if not self.ctx.sym:
            return bool(pred(self.enum))
        yes = [k for k in self.left if pred(k)]
        if not yes or len(yes) == len(self.left):
            return bool(yes)
        hit = self.enum.among(lambda k: k in yes)
        self.left = yes if hit else [k for k in self.left if k not in yes]
        return hit

    def kind(self):
        if not self.ctx.sym:
            return self.enum
        while len(self.left) > 1:
            k = self.left[0]
            self.among(lambda o: o == k)
        return self.left[0]

    def type_of(self, k):
        if k in OPS:
            return OPS[k][0]
        return base.ID if k == 'ID' else base.NUMBER if k[0].isdigit() or k == 'NUM' else base.FUNCTION

    def value(self):
        k = self.kind()
        if k in OPS:
            return OPS[k][1]
        if k == 'ID':
            return self.ident
        if k == 'NUM':
            return self.literal
        return number_value(k) if k[0].isdigit() else k

    def text(self, power):
        k = self.kind()
        if k == '^':
            return power
        return k if k in OPS else self.ident if k == 'ID' else repr(self.literal) if k == 'NUM' else k


class SymType:
    def __init__(self, slot):
        self.slot = slot

    def __eq__(self, o):
        if isinstance(o, SymType):
            return o is self or self.concrete() == o.concrete()
        return self.slot.among(lambda k: self.slot.type_of(k) == o)

    def __ne__(self, o):
        return not self == o

    def concrete(self):
        return self.slot.type_of(self.slot.kind())

    def __hash__(self):
        return hash(self.concrete())

    def __str__(self):
        return str(self.concrete())
    __repr__ = __str__


class SymTok(Token):
    def __init__(self, slot, line=1, pos=0):
        self.slot, self.line_number, self.line_pos = slot, line, pos

    def __deepcopy__(self, memo):
        return SymTok(self.slot, self.line_number, self.line_pos)

    @property
    def type(self):
        s = self.slot
        types = {s.type_of(k) for k in s.left}
        return SymType(s) if len(types) > 1 else types.pop()

    @property
    def value(self):
        if sys._getframe(1).f_globals.get('__name__', '').startswith('pynare.errors'):
            # only for a message
            return 'token'
        return self.slot.value()


class TokenFactory(type):
    def __instancecheck__(cls, o):
        return isinstance(o, Token)


def factory(table):
    class Made(Token, metaclass=TokenFactory):
        def __new__(cls, token_type, value, *a, **kw):
            if isinstance(value, str) and value in table:
                return SymTok(table[value])
            return Token(token_type, value, *a, **kw)
    return Made


class texts:
    """within: a text of the slots that the code can parse"""
    def __init__(self, ctx, slots, power='^'):
        self.ctx, self.slots, self.power = ctx, slots, power

    def __enter__(self):
        if not self.ctx.sym:
            return ' '.join(s.text(self.power) for s in self.slots)
        table = {f'{WORD}{s.i}': s for s in self.slots}
        self.saved = []
        for d, k, new in replace_fn(Token, factory(table)):
            self.saved.append((d, k, d[k]))
            d[k] = new
        return ' '.join(table)

    def __exit__(self, *a):
        for d, k, v in getattr(self, 'saved', ()):
            d[k] = v


# ------------------------------------------------------------------ the grammar, independently
class Reject(Exception):
    pass


class Reader:
    """value of a token sequence by precedence climbing. model: equation grammar with periods"""
    BIN = {'+': 1, '-': 1, '*': 2, '/': 2}
    CMP = ('<', '<=', '>', '>=', '==')

    def __init__(self, slots, var, fun, model=False):
        self.s, self.p, self.var, self.fun, self.model = slots, 0, var, fun, model

    def at(self, *kinds):
        return self.p < len(self.s) and self.s[self.p].among(lambda k: k in kinds)

    def next(self):
        self.p += 1
        return self.s[self.p-1]

    def need(self, kind):
        if not self.at(kind):
            raise Reject
        return self.next()

    def whole(self):
        v = self.level(1)
        if self.model:
            if self.at('='):
                self.next()
                r = self.level(1)
                v = (lambda a, b: lambda: a() - b())(v, r)
            if self.at(';'):
                self.next()
                self.trailing = True
        elif self.at(*self.CMP):
            op = self.next().kind()
            r = self.level(1)
            v = (lambda a, b: lambda: {'<': lambda x, y: x < y, '<=': lambda x, y: x <= y, '>': lambda x, y: x > y,
                                       '>=': lambda x, y: x >= y, '==': lambda x, y: x == y}[op](a(), b()))(v, r)
        if self.p != len(self.s):
            raise Reject
        return v

    def level(self, lo):
        v = self.factor()
        while True:
            ops = [o for o, l in self.BIN.items() if l >= lo]
            if not self.at(*ops):
                return v
            op = self.next().kind()
            r = self.level(self.BIN[op]+1)
            v = (lambda a, b: {'+': lambda: a()+b(), '-': lambda: a()-b(), '*': lambda: a()*b(), '/': lambda: a()/b()}[op])(v, r)

    def factor(self):
        if self.at('-'):
            self.next()
            return (lambda a: lambda: -a())(self.factor())
        if self.at('+'):
            self.next()
            return self.factor()
        return self.power()

    def power(self):
        b = self.primary()
        if self.at('^'):
            self.next()
            return (lambda a, e: lambda: a()**e())(b, self.factor())
        return b

    def primary(self):
        if self.at('('):
            self.next()
            v = self.level(1)
            self.need(')')
            return v
        if self.at('ID'):
            name = self.next().value()
            off = 0
            if self.model and self.at('('):
                self.next()
                if not self.at('+', '-'):
                    raise Reject
                sign = 1 if self.next().kind() == '+' else -1
                if not (self.p < len(self.s) and self.s[self.p].among(lambda k: k[0].isdigit())):
                    raise Reject
                off = sign*self.next().value()
                if off != int(off):
                    raise Reject
                self.need(')')
            return lambda: self.var(name, int(off))
        if self.p < len(self.s) and self.s[self.p].among(lambda k: k == 'NUM' or k[0].isdigit()):
            v = self.next().value()
            return lambda: v
        if self.p < len(self.s) and self.s[self.p].among(lambda k: k in self.fun):
            f = self.fun[self.next().kind()]
            self.need('(')
            v = self.level(1)
            self.need(')')
            return lambda: f(v())
        raise Reject
