"""Path exploration (depth-first re-execution), solver queries, counterexamples.

A harness is a function h(ctx, **params).  It runs the real code and states goals through
`ctx`.  In symbolic mode inputs are `Sym`s and every data-dependent branch of the executed
code is a decision explored in both directions when the solver finds both feasible.  In
concrete mode the very same function runs with floats on the unpatched code: that is how a
counterexample is replayed and how explored paths are validated against the implementation.
"""
import re, sys, time, random, math, traceback, signal
from fractions import Fraction
if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3
import numpy as np
from . import alg
from .alg import Sym, SymBool, SymEscape, Env


class Infeasible(BaseException):
    pass


class PathTimeout(SymEscape):
    pass


class Goal:
    __slots__ = ('kind', 'a', 'b', 'label', 'cond')
    def __init__(self, kind, a, b, label, cond=None):
        self.kind, self.a, self.b, self.label, self.cond = kind, a, b, label, cond


class Encoder:
    """Sym/SymBool -> z3.  `linear=True` abstracts each non-linear monomial by one real."""
    def __init__(self, store):
        self.store = store
        self.mon = {}
        self.nonlinear = False

    def zvar(self, vid):
        v = self.store.vars[vid]
        if v.z3 is None:
            if v.kind == 'flag':
                v.z3 = z3.Bool(v.name)
            elif v.kind == 'enum':
                v.z3 = z3.Int(v.name)
            else:
                v.z3 = z3.Real(v.name)
        return v.z3

    def monomial(self, m, linear):
        if len(m) == 1 and m[0][1] == 1:
            return self.zvar(m[0][0])
        self.nonlinear = True
        if linear:
            r = self.mon.get(m)
            if r is None:
                r = self.mon[m] = z3.Real('m:' + alg.mshow(m))
            return r
        fs = []
        for v, e in m:
            z = self.zvar(v)
            fs += [z]*e
        r = fs[0]
        for f in fs[1:]:
            r = r*f
        return r

    def poly(self, p, linear):
        ts = []
        for m, c in p.items():
            q = z3.Q(c.numerator, c.denominator)
            if m == ():
                ts.append(q)
            else:
                z = self.monomial(m, linear)
                ts.append(z if c == 1 else q*z)
        if not ts:
            return z3.RealVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def cross(self, a, b):
        """polynomials pa, pb with a == b <=> pa == pb (denominators non-zero)"""
        den = dict(a.den)
        for f, n in b.den.items():
            den[f] = max(den.get(f, 0), n)
        pa, pb = a.num, b.num
        for f, n in den.items():
            k = n - a.den.get(f, 0)
            if k:
                pa = alg.pmul(pa, alg._fpow(f, k))
            k = n - b.den.get(f, 0)
            if k:
                pb = alg.pmul(pb, alg._fpow(f, k))
        return pa, pb

    def sign_poly(self, s):
        """a polynomial with the sign of s"""
        p = s.num
        for f, n in s.den.items():
            if n % 2:
                p = alg.pmul(p, f.p)
        return p

    def cond(self, c, linear):
        if not isinstance(c, SymBool):
            return z3.BoolVal(bool(c))
        op = c.op
        if op == 'lt':
            return self.poly(self.sign_poly(c.a), linear) < 0
        if op == 'le':
            return self.poly(self.sign_poly(c.a), linear) <= 0
        if op == 'eq':
            return self.poly(c.a.num, linear) == 0
        if op == 'not':
            return z3.Not(self.cond(c.a, linear))
        if op == 'and':
            return z3.And(self.cond(c.a, linear), self.cond(c.b, linear))
        if op == 'or':
            return z3.Or(self.cond(c.a, linear), self.cond(c.b, linear))
        if op == 'iff':
            return self.cond(c.a, linear) == self.cond(c.b, linear)
        if op == 'flag':
            return self.zvar(c.a.id)
        if op == 'is':
            return self.zvar(c.a.id) == c.b
        raise AssertionError(op)


class Stats:
    def __init__(self):
        self.paths = 0
        self.decisions = 0
        self.queries = 0
        self.solver_s = 0.0
        self.goals = 0
        self.proved = 0
        self.validated = 0

    def add(self, o):
        for k in self.__dict__:
            setattr(self, k, getattr(self, k) + getattr(o, k))


class Context:
    sym = True

    def __init__(self, prefix, stats, opts, seed=1):
        self.prefix = prefix
        self.taken = []
        self.pending = []
        self.stats = stats
        self.opts = opts
        self.store = alg.Store()
        self.enc = Encoder(self.store)
        self.conds = []          # path condition, premises, assumptions: (SymBool, tag)
        self.goals = []
        self.lin = z3.Solver()
        self.lin.set('timeout', 20000)
        self.nfacts = 0
        self.fmt = {}
        self.notes = []
        self.hints = []
        self.rng = random.Random(seed)
        self.seed = seed
        self.env = {}            # a point known to satisfy the conditions, when available
        self.env_ok = True
        self.witness_pref = {}   # preferred input values when sampling
        self.concretised = []

    # --------------------------------------------------------------- inputs
    def real(self, name, lo=None, hi=None, nonzero=False, pref=None):
        v = self.store.new(name, kind='input', lo=lo, hi=hi)
        s = Sym.var(v)
        if lo is not None: self.assume(s >= lo, 'range')
        if hi is not None: self.assume(s <= hi, 'range')
        if nonzero: self.assume(s != 0, 'range')
        if pref is not None: self.witness_pref[v.id] = Fraction(pref)
        return s

    def reals(self, name, shape, **kw):
        from .shim import SArr
        out = np.empty(shape, dtype=object)
        for idx in np.ndindex(*out.shape):
            out[idx] = self.real(name + ''.join(f'_{i}' for i in idx), **kw)
        return out.view(SArr)

    def fresh(self, name):
        return Sym.var(self.store.new(f'{name}!{len(self.store.vars)}', kind='fresh'))

    def fresh_array(self, name, shape):
        from .shim import SArr
        out = np.empty(shape, dtype=object)
        base = len(self.store.vars)
        for idx in np.ndindex(*out.shape):
            out[idx] = Sym.var(self.store.new(f'{name}!{base}' + ''.join(f'_{i}' for i in idx), kind='fresh'))
        return out.view(SArr)

    def flag(self, name):
        v = self.store.new(name, kind='flag')
        return SymBool('flag', v)

    def choice(self, name, options):
        """a symbolic choice, decided at once"""
        options = list(options)
        v = self.store.new(name, kind='enum')
        if not hasattr(v, 'dom'):
            pass
        z = self.enc.zvar(v.id)
        self._raw(z3.And(z >= 0, z < len(options)))
        for i in range(len(options)-1):
            if self.decide(SymBool('is', v, i)):
                return options[i]
        self._note_cond(SymBool('is', v, len(options)-1))
        return options[-1]

    def enum(self, name, options):
        """a symbolic member of a finite list, decided lazily by comparisons"""
        return SymEnum(self, name, list(options))

    def value(self, x):
        return x

    # ----------------------------------------------------------- conditions
    def _raw(self, z):
        self.lin.add(z)
        self.env_ok = False

    def _note_cond(self, c):
        self.conds.append(c)
        self.lin.add(self.enc.cond(c, True))

    def assume(self, c, tag='assume'):
        """restrict the inputs considered (a stated bound)"""
        if not isinstance(c, SymBool):
            if not c:
                raise Infeasible()
            return
        self._note_cond(c)
        if tag != 'range':
            self.env_ok = False

    def premise(self, c):
        """a fact guaranteed by a stubbed routine"""
        if not isinstance(c, SymBool):
            if not c:
                raise Infeasible()
            return
        self._note_cond(c)
        self.env_ok = False

    def premise_eq(self, a, b):
        a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        for x, y in zip(a.ravel(), b.ravel()):
            self.premise(Sym._mk({}, {}) + x == y)

    def note_divisor(self, s):
        c = SymBool('not', SymBool('eq', s))
        k = s.key()
        if k in self.fmt:
            return
        self.fmt[k] = True
        self.conds.append(c)
        self.lin.add(self.enc.cond(c, True))

    def _facts(self):
        F = self.store.facts
        while self.nfacts < len(F):
            c = F[self.nfacts]
            self.nfacts += 1
            self._note_cond(c)

    # --------------------------------------------------------------- queries
    def _check(self, solver, *extra):
        t = time.time()
        r = solver.check(*extra)
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        return r

    def feasible(self, c):
        """may the path condition and c hold together? (unknown counts as yes)"""
        self._facts()
        self.enc.nonlinear = False
        z = self.enc.cond(c, True)
        r = self._check(self.lin, z)
        if r == z3.unsat:
            return False
        if self.enc.mon:
            # non-linear atoms: ask the non-linear solver, briefly
            s = z3.Solver()
            s.set('timeout', self.opts.get('feas_ms', 1500))
            for k in self._relevant(c):
                s.add(self.enc.cond(k, False))
            s.add(self.enc.cond(c, False))
            if self._check(s) == z3.unsat:
                return False
        return True

    def _relevant(self, c):
        """conditions sharing variables with c (transitively)"""
        vs = set(self._closure(c.vars()))
        todo = [(k, set(self._closure(k.vars()))) for k in self.conds]
        out = []
        changed = True
        while changed:
            changed = False
            rest = []
            for k, w in todo:
                if w & vs:
                    vs |= w
                    out.append(k)
                    changed = True
                else:
                    rest.append((k, w))
            todo = rest
        return out

    def _closure(self, vs):
        out = set()
        todo = list(vs)
        while todo:
            v = todo.pop()
            if v in out:
                continue
            out.add(v)
            d = self.store.vars[v].defn
            if d:
                for a in d[1]:
                    todo += list(a.vars())
        return out

    def decide(self, c):
        i = len(self.taken)
        if i >= self.opts.get('max_decisions', 4000):
            raise SymEscape('too many decisions on one path')
        self._tick()
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            neg = SymBool('not', c)
            t = self.feasible(c)
            f = self.feasible(neg) if t else True
            if t and f:
                self.pending.append(self.taken + [False])
                v = True
                self.stats.decisions += 1
            else:
                v = bool(t)
        self.taken.append(v)
        self._note_cond(c if v else SymBool('not', c))
        return v

    def _tick(self):
        if time.time() > self.opts.get('deadline', 1e18):
            raise PathTimeout('time budget exhausted')

    # ------------------------------------------------------------------ goals
    def eq(self, a, b, label, tol=None):
        a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        if a.shape != b.shape:
            self.goals.append(Goal('false', None, None, f'{label}: shape {a.shape} instead of {b.shape}'))
            return
        for idx in np.ndindex(*a.shape):
            x, y = a[idx], b[idx]
            lab = label + (str(list(idx)) if a.shape else '')
            try:
                cx, cy = alg._coerce(x), alg._coerce(y)
            except SymEscape:
                cx = NotImplemented
            if cx is NotImplemented or cy is NotImplemented:
                self.goals.append(Goal('bool', x == y, None, lab))
            elif isinstance(cx, float) or isinstance(cy, float):
                same = (isinstance(cx, float) and isinstance(cy, float)
                        and (cx == cy or (cx != cx and cy != cy)))
                self.goals.append(Goal('bool', same, None, lab))
            else:
                self.goals.append(Goal('eq', cx, cy, lab))

    def true(self, c, label):
        self.goals.append(Goal('bool', c, None, label))

    def le(self, a, b, label):
        self.true(Sym._const(Fraction(0)) + a <= b, label)

    def fail(self, label):
        self.goals.append(Goal('false', None, None, label))

    def same(self, a, b, label):
        """exact equality of concrete (structural) values"""
        try:
            ok = a == b
            if isinstance(ok, np.ndarray):
                ok = bool(np.all(ok))
        except SymEscape:
            raise
        if not isinstance(ok, SymBool):
            ok = bool(ok)
        self.goals.append(Goal('bool', ok, None, label + ('' if ok is True else f': {a!r} instead of {b!r}'[:300])))

    def hint(self, eqs, mults):
        """products premise * monomial the linear solver may use: lists of Syms"""
        self.hints.append((list(eqs), list(mults)))

    def format_sym(self, s, spec):
        """text of a symbolic number when printed: a unique placeholder"""
        k = s.key()
        t = self.fmt.get(('fmt', k))
        if t is None:
            t = f'«{len(self.fmt)}»'
            self.fmt[('fmt', k)] = t
            self.fmt[('unfmt', t)] = s
        self.fmt.setdefault(('specs', t), set()).add(spec)
        w = re.match(r'[ +-]?0?(\d+)', spec or '')
        return t.rjust(int(w[1])) if w else t

    # ---------------------------------------------------------- goal solving
    def _neg(self, g, linear):
        if g.kind == 'eq':
            pa, pb = self.enc.cross(g.a, g.b)
            return self.enc.poly(pa, linear) != self.enc.poly(pb, linear)
        if g.kind == 'false':
            return z3.BoolVal(True)
        if isinstance(g.a, SymBool):
            return z3.Not(self.enc.cond(g.a, linear))
        return z3.BoolVal(not bool(g.a))

    def _lemmas(self):
        out = []
        for eqs, mults in self.hints:
            for e in eqs:
                for m in mults:
                    p = e*m
                    if p.num and not p.is_const():
                        out.append(self.enc.poly(p.num, True) == 0)
        return out

    def settle(self):
        """decide every goal of the finished path; returns [(goal, status)]"""
        self._facts()
        goals, self.goals = self.goals, []
        self.stats.goals += len(goals)
        if not goals:
            return []
        lem = self._lemmas()
        if lem:
            self.lin.add(*lem)
        res = []
        r = self._check(self.lin, z3.Or(*[self._neg(g, True) for g in goals]))
        if r == z3.unsat:
            self.stats.proved += len(goals)
            return [(g, 'proved') for g in goals]
        quick = self.opts.get('goal_ms', 8000)
        nunk = 0
        for g in goals:
            self._tick()
            if g.kind == 'false':
                res.append((g, 'open'))
                continue
            z = self._neg(g, True)
            r = self._check(self.lin, z)
            if r == z3.unsat:
                self.stats.proved += 1
                res.append((g, 'proved'))
                continue
            # falsify at a sample point first: cheap
            if self._false_at_sample(g):
                res.append((g, 'open'))
                continue
            s = z3.Solver()
            s.set('timeout', quick if nunk < 3 else 1000)
            for k in self.conds:
                s.add(self.enc.cond(k, False))
            s.add(self._neg(g, False))
            r = self._check(s)
            if r == z3.unsat:
                self.stats.proved += 1
                res.append((g, 'proved'))
            else:
                nunk += 1
                res.append((g, 'open' if r == z3.sat else 'unknown'))
        return res

    def _false_at_sample(self, g):
        for env in self.samples(2):
            try:
                if g.kind == 'eq':
                    d = g.a.eval(env) - g.b.eval(env)
                    if abs(d) > 1e-9*(1+abs(float(g.a.eval(env)))):
                        return True
                elif isinstance(g.a, SymBool) and not g.a.eval(env):
                    return True
                elif not isinstance(g.a, SymBool) and not g.a:
                    return True
            except (KeyError, ZeroDivisionError, ValueError, OverflowError):
                pass
        return False

    # -------------------------------------------------------------- witnesses
    def _inputs(self):
        return [v for v in self.store.vars if v.kind == 'input']

    def _random_value(self, v, rng):
        if v.id in self.witness_pref:
            x = self.witness_pref[v.id]
            return x if rng.random() < 0.4 else x + Fraction(rng.randrange(-3, 4), 16)
        lo = -2 if v.lo is None else v.lo
        hi = 2 if v.hi is None else v.hi
        if v.lo is not None and v.hi is None: hi = v.lo + 3
        if v.hi is not None and v.lo is None: lo = v.hi - 3
        lo, hi = Fraction(lo), Fraction(hi)
        for _ in range(20):
            x = lo + (hi-lo)*Fraction(rng.randrange(1, 32), 32)
            if x != 0:
                return x
        return x

    def _holds(self, env):
        try:
            for c in self.conds:
                if self._has_fresh(c):
                    continue
                if not c.eval(env):
                    return False
        except (KeyError, ZeroDivisionError, ValueError, OverflowError):
            return False
        return True

    def _has_fresh(self, c):
        return any(self.store.vars[v].kind == 'fresh' for v in self._closure(c.vars()))

    def samples(self, n, tries=60):
        """points of the input space satisfying the path condition"""
        self._facts()
        ins = self._inputs()
        disc = [v for v in self.store.vars if v.kind in ('flag', 'enum')]
        dvals = {}
        if disc:
            if self._check(self.lin) == z3.sat:
                m = self.lin.model()
                for v in disc:
                    z = m.eval(self.enc.zvar(v.id), model_completion=True)
                    dvals[v.id] = z3.is_true(z) if v.kind == 'flag' else z.as_long()
        out = []
        rng = random.Random(self.seed*7919 + 13)
        for _ in range(tries):
            env = Env(dvals)
            for v in ins:
                env[v.id] = self._random_value(v, rng)
            if self._holds(env):
                out.append(env)
                if len(out) >= n:
                    return out
        if len(out) < 1:
            env = self._solve_point(dvals, rng)
            if env is not None:
                out.append(env)
        return out

    def goal_points(self, goals):
        """points of the path where a goal fails, according to the solver"""
        out = []
        for g in goals[:3]:
            if g.kind == 'false':
                continue
            try:
                env = self._solve_point({}, random.Random(self.seed*31 + 7), g)
            except z3.Z3Exception:
                env = None
            if env is not None:
                out.append(env)
        return out

    def _solve_point(self, dvals, rng, goal=None):
        """ask the solver for a point; pin as many inputs as possible to nice values"""
        s = z3.Solver()
        s.set('timeout', 4000)
        hard = []
        for k in self.conds:
            hard.append(k)
            s.add(self.enc.cond(k, False))
        if goal is not None:
            s.add(self._neg(goal, False))
        if self._check(s) != z3.sat:
            # equalities may define inputs: fall back on the linear abstraction
            return None
        ins = self._inputs()
        model = s.model()
        for v in ins:
            z = self.enc.zvar(v.id)
            for _ in range(2):
                x = self._random_value(v, rng)
                s.push()
                s.add(z == z3.Q(x.numerator, x.denominator))
                if self._check(s) == z3.sat:
                    model = s.model()
                    break
                s.pop()
            # (pushed scopes stay: they pin the chosen values)
        env = Env(dvals)
        if goal is not None:
            for v in self.store.vars:
                if v.kind in ('flag', 'enum'):
                    z = model.eval(self.enc.zvar(v.id), model_completion=True)
                    env[v.id] = z3.is_true(z) if v.kind == 'flag' else z.as_long()
        for v in ins:
            z = model.eval(self.enc.zvar(v.id), model_completion=True)
            if z3.is_algebraic_value(z):
                z = z.approx(20)
            env[v.id] = Fraction(z.numerator_as_long(), z.denominator_as_long())
        if not self._holds(env):
            ok = all(isinstance(c, SymBool) for c in hard)
            if not ok:
                return None
        return env

    def witness(self, env):
        w = {}
        for v in self.store.vars:
            if v.kind in ('input', 'flag', 'enum') and v.id in env:
                w[v.name] = env[v.id]
        return w


class SymEnum:
    """a member of a finite list of (hashable) values; comparisons decide lazily"""
    def __init__(self, ctx, name, options):
        self.ctx, self.options = ctx, options
        self.v = ctx.store.new(name, kind='enum')
        z = ctx.enc.zvar(self.v.id)
        ctx._raw(z3.And(z >= 0, z < len(options)))

    def among(self, pred):
        """truth of a predicate on the member, as one decision per class"""
        hits = [i for i, o in enumerate(self.options) if pred(o)]
        if not hits:
            return False
        if len(hits) == len(self.options):
            return True
        return bool(alg.disj([SymBool('is', self.v, i) for i in hits]))

    def concrete(self):
        for i in range(len(self.options)-1):
            if self.ctx.decide(SymBool('is', self.v, i)):
                return self.options[i]
        return self.options[-1]


class Concrete:
    """concrete twin of Context: inputs come from a witness"""
    sym = False

    def __init__(self, witness, seed=1, tol=1e-6):
        self.w = witness
        self.rng = random.Random(seed)
        self.tol = tol
        self.failures = []
        self.ngoals = 0
        self.used = {}
        self.notes = []

    def real(self, name, lo=None, hi=None, nonzero=False, pref=None):
        if name in self.w:
            x = float(self.w[name])
        else:
            a = -2. if lo is None else float(lo)
            b = (a + 3. if lo is not None else 2.) if hi is None else float(hi)
            if hi is not None and lo is None:
                a = b - 3.
            x = float(pref) if pref is not None else a + (b-a)*self.rng.randrange(1, 32)/32
            if nonzero and x == 0:
                x = 0.25
        self.used[name] = x
        if (lo is not None and x < lo) or (hi is not None and x > hi):
            raise Infeasible()
        return x

    def reals(self, name, shape, **kw):
        out = np.empty(shape, dtype=float)
        for idx in np.ndindex(*out.shape):
            out[idx] = self.real(name + ''.join(f'_{i}' for i in idx), **kw)
        return out

    def flag(self, name):
        v = bool(self.w[name]) if name in self.w else bool(self.rng.getrandbits(1))
        self.used[name] = v
        return v

    def choice(self, name, options):
        options = list(options)
        i = int(self.w[name]) if name in self.w else self.rng.randrange(len(options))
        self.used[name] = i
        return options[i]

    enum = choice

    def assume(self, c, tag=None):
        if not c:
            raise Infeasible()

    def premise(self, c): pass
    def premise_eq(self, a, b): pass
    def hint(self, *a): pass

    def eq(self, a, b, label, tol=None):
        self.ngoals += 1
        tol = self.tol if tol is None else tol
        try:
            a, b = np.asarray(a), np.asarray(b)
            dt = complex if a.dtype.kind == 'c' or b.dtype.kind == 'c' else float
            a, b = np.asarray(a, dtype=dt), np.asarray(b, dtype=dt)
        except (TypeError, ValueError):
            if not np.all(np.asarray(a, dtype=object) == np.asarray(b, dtype=object)):
                self.failures.append(f'{label}: {a!r} instead of {b!r}')
            return
        if a.shape != b.shape:
            self.failures.append(f'{label}: shape {a.shape} instead of {b.shape}')
            return
        nan = np.isnan(a) != np.isnan(b)
        with np.errstate(all='ignore'):
            bad = np.abs(a-b) > tol*(1+np.abs(b))
        bad = bad | nan
        if np.any(bad):
            idx = tuple(int(i) for i in np.argwhere(bad)[0]) if a.shape else ()
            self.failures.append(f'{label}{list(idx) if idx else ""}: got {a[idx]!r}, expected {b[idx]!r}')

    def true(self, c, label):
        self.ngoals += 1
        if not c:
            self.failures.append(label)

    def le(self, a, b, label):
        self.true(a <= b + self.tol*(1+abs(b)), label)

    def fail(self, label):
        self.ngoals += 1
        self.failures.append(label)

    def same(self, a, b, label):
        self.ngoals += 1
        ok = a == b
        if isinstance(ok, np.ndarray):
            ok = bool(np.all(ok))
        if not ok:
            self.failures.append(f'{label}: {a!r} instead of {b!r}'[:400])


# --------------------------------------------------------------------- exploration
SHAPE_ERRORS = ('broadcast', 'shape', 'unpack', 'inhomogeneous', 'dimension')


def run_concrete(h, params, witness, seed=1, tol=1e-6):
    """replay: returns ('ok'|'violation'|'infeasible'|'error', details, used inputs)"""
    alg.set_ctx(None, alg.Store())
    c = Concrete(witness, seed, tol)
    try:
        h(c, **params)
    except Infeasible:
        return 'infeasible', [], c.used
    except Exception as e:
        if type(e).__name__ == 'LinAlgError' and 'ingular' in str(e):
            return 'infeasible', [], c.used
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f'{f.filename.split("/repo/")[-1]}:{f.lineno}' for f in reversed(tb) if '/repo/' in f.filename), '')
        inrepo = bool(where) and not isinstance(e, MemoryError)
        if not inrepo and c.failures:
            # the run ended early, after statements that had failed already
            return 'violation', c.failures, c.used
        if not inrepo and (isinstance(e, IndexError) or isinstance(e, ValueError) and any(w in str(e) for w in SHAPE_ERRORS)):
            # the code returned normally, but with something of another shape
            return 'violation', [f'a result has another shape than stated: {type(e).__name__}: {e}'], c.used
        return ('violation' if inrepo else 'error'), [f'{type(e).__name__}: {e} at {where}' if inrepo else traceback.format_exc()], c.used
    if c.failures:
        return 'violation', c.failures, c.used
    if c.ngoals == 0:
        return 'infeasible', [], c.used
    return 'ok', [], c.used


class _Alarm(BaseException):
    pass


def explore(h, params, patch, opts, seed=1):
    """explore every path of h; returns a result dict"""
    stats = Stats()
    stack = [[]]
    out = {'violations': [], 'open': [], 'escapes': [], 'samples': [], 'notes': set(), 'vacuous': 0,
           'mismatch': []}
    maxp = opts.get('max_paths', 100000)
    validate = opts.get('validate', 2)
    nval = 0
    rng = random.Random(seed)
    while stack:
        if time.time() > opts.get('deadline', 1e18):
            out['escapes'].append(f'time budget exhausted with {len(stack)} unexplored prefixes')
            break
        if stats.paths >= maxp:
            out['escapes'].append(f'path budget {maxp} exhausted')
            break
        prefix = stack.pop()
        ctx = Context(prefix, stats, opts, seed)
        alg.set_ctx(ctx, ctx.store)
        err = None
        undo = patch(ctx) if patch else None
        try:
            h(ctx, **params)
        except Infeasible:
            err = 'infeasible'
        except SymEscape as e:
            err = ('escape', f'{type(e).__name__}: {e}', _where(e))
        except Exception as e:
            err = ('exception', f'{type(e).__name__}: {e}', _where(e))
        finally:
            if undo:
                undo()
        stack += ctx.pending
        out['notes'] |= set(ctx.notes)
        if err == 'infeasible':
            alg.set_ctx(None, alg.Store())
            continue
        stats.paths += 1
        # settle goals collected on this path
        bad, badg = [], []
        try:
            for g, st in ctx.settle():
                if st != 'proved':
                    bad.append((g.label, st))
                    badg.append(g)
        except SymEscape as e:
            err = err or ('escape', f'{type(e).__name__}: {e}', _where(e))
        if err or bad:
            desc = (f'{err[0]} {err[1]} at {err[2]}' if err else
                    '; '.join(f'{l} ({s})' for l, s in bad[:4]) + (f' ... {len(bad)} goals' if len(bad) > 4 else ''))
            try:
                envs = ctx.samples(opts.get('cex_tries', 4))
            except SymEscape:
                envs = []
            wits = [ctx.witness(e) for e in envs]
            alg.set_ctx(None, alg.Store())
            hit = None
            for w in wits:
                r, det, used = run_concrete(h, params, w, seed, opts.get('tol', 1e-6))
                if r == 'violation':
                    hit = (w, det, used)
                    break
            if not hit and badg:
                alg.set_ctx(ctx, ctx.store)
                try:
                    extra = [ctx.witness(e) for e in ctx.goal_points(badg)]
                except SymEscape:
                    extra = []
                alg.set_ctx(None, alg.Store())
                for w in extra:
                    r, det, used = run_concrete(h, params, w, seed, opts.get('tol', 1e-6))
                    wits.append(w)
                    if r == 'violation':
                        hit = (w, det, used)
                        break
            if hit:
                out['violations'].append({'params': _js(params), 'witness': {k: str(v) for k, v in hit[0].items()},
                                          'what': hit[1][:5], 'symbolic': desc})
                if len(out['violations']) >= opts.get('max_violations', 3):
                    break
            else:
                out['open'].append(f'{_js(params)}: {desc}; {len(wits)} candidate inputs did not reproduce on the real code')
                if len(out['open']) > 20:
                    break
            continue
        # validate the path against the unpatched implementation
        if nval < validate or (stack and rng.random() < opts.get('validate_p', 0.02)) :
            envs = ctx.samples(1)
            wits = [ctx.witness(e) for e in envs]
            trace = [repr(c) for c in ctx.conds if c.op != 'range'][-6:]
            alg.set_ctx(None, alg.Store())
            for w in wits:
                r, det, used = run_concrete(h, params, w, seed, opts.get('tol', 1e-6))
                if r == 'violation':
                    out['mismatch'].append({'params': _js(params), 'witness': {k: str(v) for k, v in w.items()}, 'what': det[:5]})
                elif r == 'error':
                    out['escapes'].append('concrete twin failed: ' + det[0][-600:])
                elif r == 'ok':
                    stats.validated += 1
                    nval += 1
                    if len(out['samples']) < 2:
                        out['samples'].append({'params': _js(params), 'inputs': {k: str(v) for k, v in list(w.items())[:12]},
                                               'path_condition': trace})
    alg.set_ctx(None, alg.Store())
    out['notes'] = sorted(out['notes'])
    out['stats'] = stats.__dict__
    return out


def _js(p):
    return {k: (v if isinstance(v, (int, float, str, bool, list, tuple)) else str(v)) for k, v in p.items()}


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if '/repo/' in f.filename]
    a = f'{fr[-1].filename.split("/repo/")[-1]}:{fr[-1].lineno}' if fr else ''
    last = tb[-1]
    return f'{a} ({last.filename.split("/")[-1]}:{last.lineno} {last.name})'
