"""C25: plots show every series once under its own label."""
import types
import numpy as np
from .common import *
from .models import base, hmodel, names as hnames
import pynare.plotting.base as plotting
from pynare.plotting import PathPlot
from pynare.simul import ModelSimulation
from pynare.impulse import ImpulseResponse

PROPERTY = 'C25'
BOUNDS = ('1 to 12 (thorough 30) series of one to three symbolic values and symbolic axis limits; the layouts rect, square, column, row, every pair '
          'of up to 4 rows and columns, and a single set of axes; with and without squeezed axes; labelled series, and the plots of simulations and impulse responses')
ASSUMPTIONS = ['pyplot.subplots is replaced by a stand-in that returns recording axes of the shapes matplotlib documents; the lines of an axes get '
               'the labels of its legend in the order they were drawn']


class Line:
    def __init__(self, y, label=None):
        self.y, self.label = y, label

    def set_label(self, s):
        self.label = s

    def get_label(self):
        return self.label

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return lambda *a, **kw: None


class Axes:
    """records what is drawn"""
    def __init__(self, limits):
        self.lines, self.shown, self.limits = [], [], limits

    def plot(self, *args, label=None, **kw):
        args = [a for a in args if not isinstance(a, str)]
        y = args[-1]
        y = y if isinstance(y, np.ndarray) else np.asarray(y)
        cols = [y] if y.ndim == 1 else [y[:, j] for j in range(y.shape[1])]
        labels = [label]*len(cols) if label is None or isinstance(label, str) else list(label)
        new = [Line(c, l) for c, l in zip(cols, labels)]
        self.lines += new
        return new

    def axhline(self, *a, **k):
        self.lines.append(Line(None))
        return self.lines[-1]

    def get_ylim(self):
        return self.limits

    def legend(self, *args, handles=None, labels=None, **kw):
        if len(args) == 1:
            labels = args[0]
        elif args:
            handles, labels = args[:2]
        if handles is None:
            # lines with their own labels when none are given
            handles = self.lines if labels is not None else [l for l in self.lines if l.label]
        if labels is None:
            labels = [l.label for l in handles]
        self.shown = list(zip(handles, [str(l) for l in labels]))

    def __getattr__(self, k):
        if not k.startswith(('set', 'grid', 'tick', 'margins', 'auto', 'invert', 'label', 'relim', 'ax', 'text', 'annotate')):
            raise AttributeError(k)
        return lambda *a, **kw: None


class fake_pyplot:
    def __init__(self, limits):
        self.limits = limits
        self.calls = []

    def subplots(self, nrows=1, ncols=1, *, squeeze=True, **kw):
        if not (isinstance(nrows, (int, np.integer)) and isinstance(ncols, (int, np.integer)) and nrows > 0 and ncols > 0):
            raise ValueError(f'Number of rows and columns must be positive integers, not {nrows!r}, {ncols!r}')
        a = np.empty((nrows, ncols), dtype=object)
        for i in np.ndindex(*a.shape):
            a[i] = Axes(self.limits)
        self.axes = list(a.ravel())
        self.calls.append(kw)
        if squeeze:
            a = a.item() if a.size == 1 else a.squeeze()
        return types.SimpleNamespace(), a

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return lambda *a, **kw: None

    def __enter__(self):
        # every reference of the module to pyplot
        import matplotlib.pyplot as real
        self.saved = [(k, v) for k, v in vars(plotting).items() if v is real or v is real.subplots]
        for k, v in self.saved:
            setattr(plotting, k, self if v is real else self.subplots)
        return self

    def __exit__(self, *a):
        for k, v in self.saved:
            setattr(plotting, k, v)


def shown_once(ctx, P, data, labels, what):
    T, n = np.shape(data)
    drawn = [(l, t) for ax in P.axes for l, t in ax.shown if l.y is not None]
    lines = [l for ax in P.axes for l in ax.lines if l.y is not None]
    ctx.same(len(lines), n, f'{what}: one line per series')
    ctx.same(sorted(t for _, t in drawn), sorted(labels), f'{what}: every label once')
    # a legend with more labels than lines, or lines that are not series
    ctx.same([t for ax in P.axes for l, t in ax.shown if l.y is None], [], f'{what}: labels without series')
    for l, t in drawn:
        if t in labels:
            ctx.eq(l.y, data[:, list(labels).index(t)], f'{what}: series {t}')


LABELS = [f'{a}{b}' for b in ('', '1', '2', '3') for a in 'kcqzwdna']


def limits(ctx):
    lo = ctx.real('ymin')
    hi = ctx.real('ymax')
    ctx.premise(lo < hi)
    return lo, hi


def room(ctx, P, layout, n, what):
    k = len(P.axes)
    if layout == 'rect':
        ctx.same(k, n, f'{what}: as many axes as series')
    elif layout in ('square', 'column', 'row'):
        ctx.true(k >= n, f'{what}: room for every series')
    if layout == 'square':
        r = int(round(k**0.5))
        ctx.same(r*r, k, f'{what}: square')
        ctx.true((r-1)*(r-1) < n, f'{what}: no smaller square')
    elif isinstance(layout, tuple):
        ctx.same(k, layout[0]*layout[1], f'{what}: the axes asked for')


def layouts(n, pairs):
    return ['rect', 'square', 'column', 'row', None] + [(r, c) for r in range(1, pairs+1) for c in range(1, pairs+1)]


def h_plot(ctx, n, T, pairs):
    data = ctx.reals('d', (T, n))
    labels = LABELS[:n][::-1]
    layout = ctx.choice('layout', layouts(n, pairs))
    kind = ctx.choice('labels', ['list', 'array'])
    kw = ctx.choice('options', [{}, {'squeeze': False}, {'color': 'k'}, {'figsize': (3, 2), 'alpha': 0.5}])
    with fake_pyplot(limits(ctx)) as P:
        A = PathPlot(data, labels if kind == 'list' else np.array(labels))
        if layout is None:
            if 'squeeze' in kw:
                ctx.assume(False)
            got = A.plot(subplots=False, **kw)
        elif layout == 'rect':
            got = A.plot(**kw)
        else:
            got = A.plot(layout=layout, **kw)
        what = f'{n} series, {layout}'
        shown_once(ctx, P, data, labels, what)
        room(ctx, P, layout, n, what)
        axes = list(got.ravel()) if isinstance(got, np.ndarray) else [got]
        ctx.true(len(axes) == len(P.axes) and all(a is b for a, b in zip(axes, P.axes)), f'{what}: the axes are returned')


def h_unlabelled(ctx, n, T):
    data = ctx.reals('d', (T, n))
    layout = ctx.choice('layout', layouts(n, 2))
    with fake_pyplot(limits(ctx)) as P:
        PathPlot(data).plot(subplots=layout is not None, layout=layout or 'rect')
        lines = [l for ax in P.axes for l in ax.lines if l.y is not None]
        ctx.same(len(lines), n, 'one line per series')
        left = list(range(n))
        for l in lines:
            j = next((j for j in left if is_same(l.y, data[:, j])), None)
            ctx.true(j is not None, 'every line is another series')
            if j is not None:
                left.remove(j)


def h_results(ctx, struct, T, which):
    """the plots of simulations and impulse responses carry the names of the variables"""
    n = len(struct)
    m = base(struct, 2)
    data = ctx.reals('d', (T, n))
    layout = ctx.choice('layout', ['default'] + layouts(n, 2))
    with fake_pyplot(limits(ctx)) as P:
        R = ModelSimulation(m, data, np.zeros((T, 2))) if which == 'simulation' else ImpulseResponse(m, 'u', data, 1)
        kw = {} if layout == 'default' else dict(subplots=False) if layout is None else dict(layout=layout)
        R.plot(**kw)
        shown_once(ctx, P, data, list(hnames(struct)), f'{which}, {layout}')
        room(ctx, P, 'rect' if layout == 'default' else layout, n, f'{which}, {layout}')


def h_unknown(ctx):
    """layouts that are none are errors"""
    data = ctx.reals('d', (2, 3))
    layout = ctx.choice('layout', ['grid', '', None, (1, 2, 3)])
    with fake_pyplot(limits(ctx)) as P:
        try:
            PathPlot(data, ['a', 'b', 'c']).plot(layout=layout)
        except (ValueError, TypeError):
            ctx.true(True, 'rejected')
        else:
            ctx.fail(f'layout {layout!r} accepted')


def cases(tier):
    quick = tier == 'quick'
    P = patch_all()
    out = []
    for n in range(1, (12 if quick else 30)+1):
        out.append(dict(name=f'plot-{n}', fn=h_plot, patch=P, weight=n, params=dict(n=n, T=1 + n % 3, pairs=4 if n < 7 else 3 if n < 13 else 2)))
    for n in (1, 2, 3, 5):
        out.append(dict(name=f'unlabelled-{n}', fn=h_unlabelled, patch=P, params=dict(n=n, T=2)))
    for st in ('b', 'fs', 'sbm', 'fbsm', 'bsmfb'):
        base(st, 2)
        for w in ('simulation', 'impulse'):
            out.append(dict(name=f'{w}-{st}', fn=h_results, patch=P, params=dict(struct=st, T=2, which=w)))
    out.append(dict(name='unknown', fn=h_unknown, patch=P, params={}))
    return out
