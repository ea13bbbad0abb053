"""C27: solutions, simulations and responses are the ones that were asked for."""
from .common import *
from .models import _SS
from .eqs import derivative_stubs, sqrt
from pynare.core.model import Model

PROPERTY = 'C27'
BOUNDS = ('histories of up to 3 (thorough 4) requests and edits, starting from a model that was never solved: solve with no order, order 1, 2 or 3, solution, '
          'solution_order, first_order_solution, simulate at no order, 1 or 2, impulse responses, mean, covariance, variance decomposition, parameter and variance edits, replaced equations, copies; a model of '
          'one variable, two shocks and symbolic coefficients, initial value, innovations and size of the impulse, 3 periods; one request for a model of a state, a static variable and two shocks, '
          'correlated or not, in every order of declaration and equations')
ASSUMPTIONS = ['generalized_sylvester returns the X with A X B\' + C X D\' = E (checked by C12), linear systems are solved exactly',
               'generalized Schur and QZ decompositions of 1x1 pencils are themselves; discrete Lyapunov equations of size 1 are solved exactly',
               'the steady state of the model is zero by construction and given by name']
DEFAULT = 2


def pencil(b, a, **k):
    if not (shim.is_symbolic(a) or shim.is_symbolic(b)):
        return None
    one = mat(alg.CTX, [[1]])
    a, b = shim.lift(a), shim.lift(b)
    if a.shape != (1, 1):
        raise SymEscape('pencil larger than 1x1')
    return a, b, one


def stubs(ctx):
    def ordqz(b, a, **k):
        r = pencil(b, a)
        return None if r is None else (r[1], r[0], np.diagonal(r[1]), np.diagonal(r[0]), r[2], r[2])

    def qz(b, a, **k):
        r = pencil(b, a)
        return None if r is None else (r[1], r[0], r[2], r[2])

    def lyapunov(a, q, *r):
        a, q = shim.lift(a), shim.lift(q)
        return q/(1 - a*a)
    ctx.stubs.update(ordqz=ordqz, qz=qz, solve_discrete_lyapunov=lyapunov)


class Zero(Model):
    @property
    def ss(self):
        return _SS(np.zeros(len(self.endog), dtype=float))


class Ref:
    """what the model is and which solution it has"""
    def __init__(self, ctx, a, b, k):
        self.a, self.b, self.k, self.order, self.form, self.v = a, b, k, None, 'plain', const(ctx, 1)

    def slope(self):
        return self.a if self.form == 'plain' else self.a*self.a

    def need(self, order=None):
        self.order = order or self.order or DEFAULT
        return self.order

    def sd(self):
        return sqrt(self.v)

    def variance(self):
        return (self.v + self.k*self.k)/(1 - self.slope()*self.slope())

    def step(self, y, e, u, order):
        t = self.slope()*y + e + self.k*u
        return t + self.b*y*y if order == 2 else t


EQ = {'plain': 'y = a*y(-1) + b*y(-1)^2 + e + k*u', 'square': 'y - b*y(-1)^2 = a^2*y(-1) + k*u + e'}


def check_solution(ctx, sol, r, order, where):
    ctx.same(sol.order, order, f'{where}: order of the solution')
    if sol.order != order:
        return
    first = sol if order == 1 else sol.lower_solution
    ctx.eq(np.reshape(first.gy, -1), mat(ctx, [r.slope()]), f'{where}: response to the state')
    ctx.eq(np.reshape(first.gu, -1), mat(ctx, [const(ctx, 1), r.k]), f'{where}: response to the shocks')
    if order == 2:
        ctx.eq(np.reshape(sol.ghxx, -1), mat(ctx, [r.b]), f'{where}: second-order response')


def op(ctx, M, r, what, i):
    if what.startswith('solve'):
        n = int(what[5:] or 0)
        try:
            sol = M.solve(order=n) if n else M.solve()
        except ValueError:
            ctx.same(n, 3, f'{what} is rejected')
            return M
        if n == 3:
            ctx.fail('solve(order=3) accepted')
            return M
        check_solution(ctx, sol, r, r.need(n or DEFAULT), what)
    elif what == 'solution':
        check_solution(ctx, M.solution, r, r.need(), what)
    elif what == 'order':
        ctx.same(M.solution_order, r.order, 'solution_order')
    elif what == 'first':
        got = M.first_order_solution
        r.need()
        check_solution(ctx, got, r, 1, what)
    elif what.startswith('simulate'):
        n = int(what[8:] or 0)
        eps = ctx.reals(f'eps{i}', (3, 2))
        # innovations come in standard deviations
        y0 = ctx.real(f'init{i}', pref=Q(1, 3))
        sim = M.simulate(shocks=eps, init=mat(ctx, [y0]), order=n) if n else M.simulate(shocks=eps, init=mat(ctx, [y0]))
        order = r.need(n or None)
        ctx.same(sim.order, order, what + ': order of the simulation')
        want = [y0]
        for t in range(2):
            want.append(r.step(want[-1], r.sd()*eps[t, 0], eps[t, 1], order))
        ctx.eq(np.reshape(sim.paths, -1), mat(ctx, want), what + ': path')
    elif what.startswith('irf'):
        s = ctx.real(f'size{i}', pref=Q(3, 2))
        name = what[4:] or None
        got = M.impulse_response(exog=name, periods=3, size=s) if name else M.impulse_response(periods=3, size=s)
        order = r.need()
        zero = const(ctx, 0)
        want = [zero, r.step(zero, zero if name == 'u' else s*r.sd(), s if name == 'u' else zero, order)]
        want.append(r.step(want[-1], 0, 0, order))
        ctx.eq(np.reshape(got.impulse, -1), mat(ctx, want), what + ': response')
    elif what == 'mean':
        got = np.reshape(M.stats.mean(), -1)
        order = r.need()
        z = const(ctx, 0)
        var = r.variance()
        ctx.eq(got, mat(ctx, [z + r.b*var/(1 - r.slope()) if order == 2 else z]), 'mean')
    elif what == 'cov':
        got = np.reshape(np.asarray(M.stats.cov()), -1)
        r.need()
        ctx.eq(got, mat(ctx, [r.variance()]), 'variance')
    elif what == 'decomposition':
        got = np.reshape(np.asarray(M.stats.var_decomp()), -1)
        r.need()
        # the shares are those of a covariance with a small addition (C16)
        ctx.eq(got[0] + got[1], const(ctx, 1), 'variance decomposition')
    elif what == 'variance':
        r.v, r.order = ctx.real(f'v{i}', lo=Q(1, 4), hi=8, pref=[Q(9, 4), Q(4), Q(25, 4)][i]), None
        M.stoch[0].variance = r.v
        M.update()
    elif what == 'add_params':
        r.a, r.k, r.order = ctx.real(f'a{i}', lo=Q(-9, 10), hi=Q(9, 10), pref=Q(2, 7)), ctx.real(f'k{i}', pref=Q(i+5, 3)), None
        M.add_params(a=r.a, k=r.k)
    elif what == 'param':
        r.b, r.order = ctx.real(f'b{i}', pref=Q(i+5, 4)), None
        M.params['b'] = r.b
        M.update()
    elif what == 'equation':
        r.form, r.order = 'square' if r.form == 'plain' else 'plain', None
        M.exprs[0] = EQ[r.form]
        M.update()
    elif what == 'copy':
        M = M.copy()
        M.__class__ = Zero
        r.order = None
    return M


OPS = ['solve', 'solve1', 'solve2', 'solve3', 'solution', 'order', 'first', 'simulate', 'simulate1', 'simulate2', 'irf', 'irf-u', 'mean', 'cov', 'decomposition',
       'variance', 'add_params', 'param', 'equation', 'copy']


def h_history(ctx, first, n):
    a = ctx.real('a', lo=Q(-9, 10), hi=Q(9, 10), pref=Q(1, 2))
    b, k = ctx.real('b', pref=Q(3, 4)), ctx.real('k', pref=Q(5, 3))
    if ctx.sym:
        stubs(ctx)
    r = Ref(ctx, a, b, k)
    M = Zero(endog=['y'], stoch=['e', 'u'], params={'a': a, 'b': b, 'k': k}, exprs=[EQ['plain']], shocks={}, initial={}, name='h')
    M = op(ctx, M, r, first, 0)
    for i in range(1, n):
        M = op(ctx, M, r, ctx.choice(f'op{i}', OPS), i)
    # whatever happened, the next requests are answered for this model
    ctx.same(M.solution_order, r.order, 'solution_order at the end')
    check_solution(ctx, M.solution, r, r.need(), 'solution at the end')


def sylvester(a, b, c, d, e):
    """contract of the generalized equation A X B' + C X D' = E"""
    a, b, c, d, e = [shim.lift(x) for x in (a, b, c, d, e)]
    X = alg.CTX.fresh_array('X', e.shape)
    alg.CTX.premise_eq(np.dot(np.dot(a, X), b.T) + np.dot(np.dot(c, X), d.T), e)
    return X


CHAIN = {'y': 'y = a*y(-1) + b*y(-1)^2 + e + k*u', 'c': 'c = d*y + h*y^2 + g*u'}


def h_chain(ctx, names, exprs, shocks, order, related=False):
    """from equations to paths, responses and moments, all in the order of the declaration"""
    if ctx.sym:
        stubs(ctx)
    R = lambda n, p, **kw: ctx.real(n, pref=p, **kw)
    a, b, k = R('a', Q(1, 2), lo=Q(-9, 10), hi=Q(9, 10)), R('b', Q(3, 4)), R('k', Q(5, 3))
    d, h, g = R('d', Q(5, 4)), R('h', Q(2, 3)), R('g', Q(7, 5))
    v = {'e': R('ve', Q(9, 4), lo=Q(1, 4), hi=8), 'u': R('vu', Q(25, 16), lo=Q(1, 4), hi=8)}
    # innovations are in standard deviations of the first shock, and of what the second has on its own
    w = R('cov', Q(3, 8), lo=Q(-1, 5), hi=Q(1, 5)) if related else 0
    first, second = shocks
    U = {first: sqrt(v[first]), (first, second): w/sqrt(v[first])}
    U[second] = sqrt(v[second] - U[first, second]*U[first, second]) if related else sqrt(v[second])
    move = lambda p, q: {first: p*U[first], second: p*U[first, second] + q*U[second]}
    M = Zero(endog=list(names), stoch=list(shocks), params=dict(a=a, b=b, k=k, d=d, h=h, g=g), exprs=[CHAIN[n] for n in exprs],
             shocks={s: dict(variance=x, **({'other': 'u', 'cov': w} if related and s == 'e' else {})) for s, x in v.items()}, initial={}, name='h')
    if order:
        M.solve(order=order)
    o = order or DEFAULT
    zero = const(ctx, 0)

    def step(y, e, u):
        f = a*y + e + k*u
        return {'y': f + (b*y*y if o == 2 else 0), 'c': d*f + g*u + (d*b*y*y + h*f*f if o == 2 else 0)}

    what = ctx.choice('what', ['path', 'response', 'mean', 'cov', 'all'])
    if what in ('path', 'all'):
        eps = ctx.reals('eps', (3, 2))
        y0 = {'y': R('y0', Q(1, 3)), 'c': R('c0', Q(2, 3))}
        sim = M.simulate(shocks=eps, init=mat(ctx, [y0[n] for n in names]))
        want = [y0]
        for t in range(2):
            x = move(eps[t, 0], eps[t, 1])
            want.append(step(want[-1]['y'], x['e'], x['u']))
        ctx.eq(sim.paths, mat(ctx, [[w[n] for n in names] for w in want]), 'path')
    if what in ('response', 'all'):
        s, size = ctx.choice('shock', list(shocks)), R('size', Q(3, 2))
        got = M.impulse_response(s, periods=3, size=size).impulse
        x = move(*(size if s == n else zero for n in shocks))
        one = step(zero, x['e'], x['u'])
        want = [{'y': zero, 'c': zero}, one, step(one['y'], zero, zero)]
        ctx.eq(got, mat(ctx, [[w[n] for n in names] for w in want]), f'response to {s}')
    V = (v['e'] + k*k*v['u'] + 2*k*w)/(1 - a*a)
    if what in ('mean', 'all'):
        Ey = b*V/(1 - a)
        want = {'y': Ey, 'c': d*Ey + h*V}
        ctx.eq(np.reshape(M.stats.mean(), -1), mat(ctx, [want[n] if o == 2 else zero for n in names]), 'mean')
    if what in ('cov', 'all'):
        yc = d*V + g*(k*v['u'] + w)
        want = {'yy': V, 'yc': yc, 'cy': yc, 'cc': d*d*V + 2*d*g*(k*v['u'] + w) + g*g*v['u']}
        ctx.eq(M.stats.cov(), mat(ctx, [[want[p+q] for q in names] for p in names]), 'covariance')
    ctx.same(M.solution_order, o, 'order of the solution')


LONG = ['solve1', 'first', 'simulate1', 'variance']


def cases(tier):
    P = patch_all(extra=derivative_stubs)
    out = [dict(name=f'{o}', fn=h_history, params=dict(first=o, n=2), patch=P, weight=10) for o in OPS]
    for o in (LONG if tier == 'quick' else OPS):
        out.append(dict(name=f'{o}-3', fn=h_history, params=dict(first=o, n=3), patch=P, weight=100))
    import pynare.utils.numpy as unp
    C = patch_all(stubs={'solve': fresh_solve}, extra=lambda ctx: derivative_stubs() + replace_fn(unp.generalized_sylvester, sylvester))
    for names in ('yc', 'cy'):
        for exprs in ('yc', 'cy'):
            for shocks in ('eu', 'ue'):
                for order in (0, 1, 2):
                    out.append(dict(name=f'chain-{names}-{exprs}-{shocks}-{order}', fn=h_chain, params=dict(names=names, exprs=exprs, shocks=shocks, order=order),
                                    patch=C, weight=20))
                if tier != 'quick' or names == exprs:
                    out.append(dict(name=f'chain-{names}-{exprs}-{shocks}-related', fn=h_chain, patch=C, weight=90,
                                    params=dict(names=names, exprs=exprs, shocks=shocks, order=2, related=True)))
    return out
