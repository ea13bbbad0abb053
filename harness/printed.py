"""Reading numbers back from printed tables.

On the symbolic side a printed number is a unique placeholder that stands for its exact value; in
the concrete replay it is the decimal that was printed, right up to its last printed digit."""
import re
import numpy as np
from .common import *

MARK = re.compile(r'«\d+»')
NUM = re.compile(r'[-+]?(\d+\.?\d*([eE][-+]?\d+)?|\.\d+|nan|inf)$')


def widths():
    """the decimal magnitude of symbolic numbers only decides how wide columns are: taken as zero"""
    def log10(x, *a, **k):
        if shim.is_symbolic(x):
            return np.zeros(np.shape(x)) if np.shape(x) else 0.0
        return np.log10(x, *a, **k)
    return [(shim.NP._over, 'log10', log10)]


def words(line):
    return re.sub(r'(«\d+»)', r' \1 ', line).split()


def is_number(w):
    return bool(MARK.fullmatch(w)) or bool(NUM.fullmatch(w))


def same_number(ctx, text, want, sig, label):
    """the printed text is the number wanted, to sig decimals"""
    if MARK.fullmatch(text):
        got = ctx.fmt['unfmt', text]
        ctx.eq(got, want, label)
        for spec in ctx.fmt['specs', text]:
            m = re.search(r'\.(\d+)f$', spec or '')
            if m:
                ctx.same(int(m[1]) >= sig, True, f'{label}: {m[1]} decimals instead of {sig}')
        return
    x = float(text)
    if ctx.sym:
        ctx.eq(const(ctx, Fraction(text)), want, label)
    else:
        ctx.le(abs(x - float(want)), 0.501*10**-sig + 1e-9*abs(float(want)), f'{label}: {text} printed for {float(want)!r}')


class Table:
    """rows of a printed table: a label followed by one number per column"""
    def __init__(self, text, columns, need_header=True):
        """columns: the names expected in the header, in any order"""
        self.header, self.rows, self.other = None, [], []
        n = len(columns)
        for line in text.split('\n'):
            w = words(line)
            if self.header is None and sorted(w) == sorted(columns):
                self.header = w
            elif len(w) >= n and all(is_number(x) for x in w[-n:]) and self.header:
                self.rows.append((' '.join(w[:-n]), dict(zip(self.header, w[-n:]))))
            elif w:
                self.other.append(line)

    def labels(self):
        return [r[0] for r in self.rows]

    def __getitem__(self, label):
        return [r[1] for r in self.rows if r[0] == label]
