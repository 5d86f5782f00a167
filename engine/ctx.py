"""The harness interface in its two modes: symbolic (solver) and concrete (replay on the real code)."""
import importlib
import math
import sys
import types
from fractions import Fraction

CHECK_OBS = 400     # observations kept per run


class Abandon(BaseException):
    """concrete run: the values do not satisfy the assumptions of the harness"""


class Cut(Abandon):
    """concrete run: ended on purpose"""


class Failure(Exception):
    """concrete run: a check failed"""

    def __init__(self, label, detail):
        super().__init__("%s: %s" % (label, detail))
        self.label, self.detail = label, detail


class Base:
    tol = 1e-9

    # common helpers
    def vec(self, name, n, lo=-4, hi=4, kind="f"):
        vals = []
        for k in range(n):
            if kind == "c":
                vals.append(self.complex("%s[%d]" % (name, k), lo, hi))
            elif kind == "i":
                vals.append(self.int("%s[%d]" % (name, k), lo, hi))
            else:
                vals.append(self.real("%s[%d]" % (name, k), lo, hi))
        return self.arr(vals, {"c": complex, "i": int, "f": float}[kind])

    def mat(self, name, r, c, lo=-4, hi=4, kind="f"):
        rows = [self.vec("%s[%d]" % (name, k), c, lo, hi, kind) for k in range(r)]
        return self.np.array([list(v) for v in rows], {"c": complex, "i": int, "f": float}[kind]) if r and c else self.np.zeros((r, c))

    def flat(self, a):
        if isinstance(a, (list, tuple)):
            out = []
            for x in a:
                out.extend(self.flat(x))
            return out
        if hasattr(a, "reshape") and hasattr(a, "shape") and a.shape != ():
            return [x for x in self.plain(a).reshape(-1)]
        return [a]


class SymCtx(Base):
    symbolic = True

    def __init__(self, state, inst):
        from . import arr, core
        self.core, self._arr = core, arr
        self.st = state
        self.np = arr.NP
        self.inst = inst
        self.stubs = {}
        self._db = None
        self.found = []           # counterexamples
        self.obs = []
        self.unknown = []
        self.labels = {}
        self.angles = {}
        self.max_found = 3

    # -- environment
    def stub(self, name, value):
        self.stubs[name] = value

    @property
    def db(self):
        if self._db is None:
            from .loader import Loader
            self.loader = Loader(self.stubs)
            self._db = self.loader.load("diamondback")
        return self._db

    def module(self, name):
        self.db
        return self.loader.load(name)

    def fork_db(self):
        """a fresh copy of the package (fresh module state)"""
        from .loader import Loader
        self.loader = Loader(self.stubs)
        self._db = self.loader.load("diamondback")
        return self._db

    # -- inputs
    def _user(self, name, isint, lo, hi):
        v = self.st.new(name, isint, None if lo is None else Fraction(lo), None if hi is None else Fraction(hi), user=True)
        return self.core.var_num(v)

    def real(self, name, lo=-4, hi=4):
        return self._user(name, False, lo, hi)

    def int(self, name, lo, hi):
        return self._user(name, True, lo, hi)

    def complex(self, name, lo=-4, hi=4):
        return self.core.SymComplex(self.real(name + ".re", lo, hi), self.real(name + ".im", lo, hi))

    def bool(self, name):
        return self.core.mkbool(name, user=True)

    def choice(self, name, n):
        """a concrete integer in range(n), chosen by branching"""
        v = self.int(name, 0, n - 1)
        return v.concretize()

    def flag(self, name):
        return bool(self.bool(name))

    def text(self, name, maxlen, minlen=0, lo=32, hi=126):
        """a string of symbolic characters; needs use_text before the package is loaded"""
        from . import text
        n = minlen + (self.choice(name + ".len", maxlen - minlen + 1) if maxlen > minlen else 0)
        return text.mkstr([self.int("%s[%d]" % (name, k), lo, hi) for k in range(n)])

    def use_text(self):
        from . import text
        self.stub("builtins.str", text.VStr)
        self.stub("builtins.bytes", text.VBytes)

    def same_text(self, a, b):
        from . import text
        return text.eq(a, b)

    def letters(self, s):
        from . import text
        return text.codes(s)

    def phasor(self, name):
        """a symbolic point of the unit circle"""
        f = self.real(name, -1, 1)
        return f, self.np.exp(1j * math.pi * f)

    def arr(self, vals, kind=float):
        vals = list(vals)
        if kind is not complex and any(self._arr.iscx(v) for v in self.flat(vals)):
            raise AssertionError("complex values for a real array of a check")
        return self._arr.mk(vals, kind)

    def plain(self, a):
        return self._arr.plain(a) if isinstance(a, self._arr.SymArray) else a

    def dtype(self, a):
        return a.dtype

    # -- logic
    def all(self, xs): return self.core.b_all(list(xs))
    def any(self, xs): return self.core.b_any(list(xs))
    def both(self, a, b): return self.core.b_and(a, b)
    def either(self, a, b): return self.core.b_or(a, b)
    def no(self, a): return self.core.b_not(a)
    def implies(self, a, b): return self.core.b_implies(a, b)
    def ite(self, c, a, b): return self.core.ite(c, a, b)
    def isconc(self, x): return not self._arr.hassym(x)

    def assume(self, c):
        c = self.core.tobool(c)
        if c is True:
            return
        if c is False:
            raise self.core.Infeasible()
        self.st.assume(self.core.Con(c.e, c.vs))

    def cut(self):
        raise self.core.PathCut()

    def mark(self, name, n=1):
        self.st.stats.__dict__.setdefault("marks", {})
        self.st.stats.marks[name] = self.st.stats.marks.get(name, 0) + n

    # -- checks
    def check(self, c, label):
        self.st.stats.checks += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        c = self.core.tobool(c)
        if c is True:
            return
        if c is False:
            r, m = self.st.solve([], full=True)
            self._cex(label, m or {}, [], r)
            raise self.core.CheckFailed()
        con = self.core.Con(c.n, c.vs)
        self._query(label, con, [])

    def _query(self, label, con, stronger):
        r, m = self.st.solve([con])
        if r == "unsat":
            return
        if r == "unknown":
            self.unknown.append(label)
            self.st.assume(self.core.Con(self._neg(con), con.vs)) if False else None
            return
        best = con
        for s in stronger:
            r2, m2 = self.st.solve([s], timeout_ms=5000)
            if r2 == "sat":
                best, m = s, m2
                break
        r2, m2 = self.st.solve([best], full=True)
        if r2 == "sat":
            m = m2
        elif r2 == "unsat":
            return      # the path itself is infeasible
        self._cex(label, m, [best], "sat")
        if len(self.found) >= self.max_found:
            raise self.core.CheckFailed()

    def _cex(self, label, m, extra, r):
        if r == "unsat":
            return
        cands = []
        if r == "sat" or not self.st.pc:
            try:
                cands.append(nice(self, extra, m, False))
            except self.core.EngineStop:
                pass
            cands.append(self.values(m))
            cands.append(self.values(m, angles=False))
        self.found.append(dict(label=label, candidates=[c for i, c in enumerate(cands) if c not in cands[:i]]))

    def close(self, a, b, tol=None, label="equal", scale=1.0):
        """|a - b| <= tol for every entry"""
        tol = (self.tol if tol is None else tol) * scale
        fa, fb = self.flat(a), self.flat(b)
        sa, sb = getattr(a, "shape", None), getattr(b, "shape", None)
        if len(fa) != len(fb) or (sa is not None and sb is not None and tuple(sa) != tuple(sb)):
            self.check(False, label + " (shape)")
            return
        for k, (x, y) in enumerate(zip(fa, fb)):
            self.close1(x, y, tol, label if len(fa) == 1 else "%s[%d]" % (label, k))

    def close1(self, x, y, tol, label):
        core = self.core
        if len(self.obs) < CHECK_OBS:
            self.obs.append((label, x))
        if self._arr.iscx(x) or self._arr.iscx(y):
            x, y = core.tocomplex(x), core.tocomplex(y)
            self.real_close(x.re, y.re, tol, label)
            self.real_close(x.im, y.im, tol, label)
        else:
            self.real_close(x, y, tol, label)

    def real_close(self, x, y, tol, label):
        core = self.core
        self.st.stats.checks += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        x, y = core.lift(x), core.lift(y)
        if isinstance(x, float) or isinstance(y, float):
            # not finite
            same = isinstance(x, float) and isinstance(y, float) and (x == y or (math.isnan(x) and math.isnan(y)))
            if not same:
                self.check(False, label + " (not finite)")
            return
        d = x - y
        t = Fraction(tol)
        if math.isfinite(d.e):
            if d.e < tol / 2:
                t = t - Fraction(d.e)
                self.st.stats.rounding_covered += 1
            else:
                self.st.stats.rounding_open += 1
        else:
            self.st.stats.rounding_open += 1
        c = d.const()
        if c is None and any(self.st.vars[i].recip is not None for m in d.p for i in m) and core.p_clear(d.p) == {}:
            # equal as fractions
            c = Fraction(0)
        if c is not None:
            # still decided by the solver for uniform evidence
            import z3
            con = core.Con(z3.Or(core.zval(c) > core.zval(t), core.zval(c) < core.zval(-t)), frozenset())
            r, _ = self.st.solve([con])
            if r == "unsat":
                return
            r, m = self.st.solve([], full=True)
            self._cex(label, m or {}, [], r)
            if len(self.found) >= self.max_found:
                raise core.CheckFailed()
            return

        def con(th):
            return core.b_not(core.b_and(core.atom(core.p_add(d.p, {core.ONE: -th}), "<="),
                                         core.atom(core.p_add(core.p_scale(d.p, -1), {core.ONE: -th}), "<=")))
        rest, slack = core.split_small(d.p, t / 4)
        if slack:
            self.st.stats.marks_small = getattr(self.st.stats, "marks_small", 0) + 1
            delta = self.st.new("small!%d" % len(self.st.vars), False, -slack, slack)
            d2 = core.p_add(rest, {(delta.id,): Fraction(1)})
            s2 = core.b_not(core.b_and(core.atom(core.p_add(d2, {core.ONE: -t}), "<="),
                                       core.atom(core.p_add(core.p_scale(d2, -1), {core.ONE: -t}), "<=")))
            r, _ = self.st.solve([core.Con(s2.e, s2.vs)])
            if r == "unsat":
                return
        s = con(t)
        stronger = []
        for k in (Fraction(1), Fraction(1, 10), Fraction(1, 1000), t * 100):
            if k > t:
                q = con(k)
                if not isinstance(q, bool):
                    stronger.append(core.Con(q.e, q.vs))
        self._query(label, core.Con(s.e, s.vs), stronger)

    def raises(self, fn, *exc):
        """True when fn raises one of exc; other exceptions propagate"""
        try:
            fn()
        except exc or (Exception,):
            return True
        return False

    def observe(self, name, v):
        if len(self.obs) < CHECK_OBS:
            for k, x in enumerate(self.flat(v)):
                self.obs.append(("%s[%d]" % (name, k), x))

    # -- models
    def values(self, m, angles=True):
        out = {}
        vals = dict(m)
        if angles:
            for atom, tab in self.st.cis.items():
                if len(atom) != 1:
                    continue
                v = self.st.vars[atom[0]]
                if not v.user or v.isint:
                    continue
                d = max(tab)
                c, s = tab[d]
                clip = lambda x: max(-1.0, min(1.0, float(x)))
                if c.name in m and s.name in m:
                    fs = [math.atan2(float(m[s.name]), float(m[c.name]))]
                elif c.name in m:
                    fs = [math.acos(clip(m[c.name])), -math.acos(clip(m[c.name]))]
                elif s.name in m:
                    fs = [math.asin(clip(m[s.name])), math.pi - math.asin(clip(m[s.name]))]
                else:
                    fs = []
                if fs:
                    best = None
                    for k in (-2, -1, 0, 1, 2):
                        for f in fs:
                            g = Fraction(d * f / math.pi) + 2 * d * k
                            if (v.lo is None or g >= v.lo) and (v.hi is None or g <= v.hi):
                                if best is None or abs(g - m.get(v.name, 0)) < abs(best - m.get(v.name, 0)):
                                    best = g
                    if best is not None:
                        vals[v.name] = best
        import z3
        for v in self.st.vars:
            if not v.user:
                continue
            x = vals.get(v.name)
            if x is None:
                x = False if z3.is_bool(v.z) else (max(v.lo, 0) if v.lo is not None else 0)
                if v.hi is not None and not isinstance(x, bool):
                    x = min(x, v.hi)
            if isinstance(x, bool):
                out[v.name] = x
            elif v.isint:
                out[v.name] = int(x)
            else:
                out[v.name] = float(x)
        return out

    def eval_obs(self, values):
        """observed values for input values"""
        core = self.core
        env = self.st.numeric(values)

        def ev(p):
            try:
                return core.pev(p, env)
            except TypeError:
                return None

        out = []
        for name, x in self.obs:
            if isinstance(x, core.SymComplex):
                re, im = core.lift(x.re), core.lift(x.im)
                if isinstance(re, float) or isinstance(im, float):
                    continue
                re, im = ev(re.p), ev(im.p)
                if re is not None and im is not None:
                    out.append((name, [re, im]))
            elif isinstance(x, core.SymNum):
                r = ev(x.p)
                if r is not None:
                    out.append((name, r))
            elif isinstance(x, core.SymBool):
                continue
            elif isinstance(x, complex) or type(x).__name__.startswith("complex"):
                out.append((name, [float(x.real), float(x.imag)]))
            elif isinstance(x, (int, float)) or hasattr(x, "dtype"):
                try:
                    f = float(x)
                    if math.isfinite(f):
                        out.append((name, f))
                except Exception:
                    pass
        return out


def witness(ctx, rng):
    """Input values that follow the path of this run: random values that satisfy the path condition, else a solver model."""
    import z3
    st = ctx.st
    base = None
    for k in range(24):
        vals = {}
        for v in st.vars:
            if not v.user:
                continue
            if z3.is_bool(v.z):
                vals[v.name] = rng.random() < 0.5
            elif v.lo is not None and v.hi is not None:
                u = 1 if v.isint else 64
                lo, hi = math.ceil(v.lo * u), math.floor(v.hi * u)
                x = Fraction(rng.randint(lo, hi), u) if lo <= hi else v.lo
                vals[v.name] = int(x) if v.isint else float(x)
        vals = ctx.values(vals, angles=False)
        if st.holds(st.numeric(vals)):
            return vals
    quad = st.notes.get("quad", [])
    r, m = st.solve(quad, full=True, timeout_ms=10000) if quad else ("unknown", None)
    if r != "sat":
        quad = []
        r, m = st.solve([], full=True, timeout_ms=10000)
    if r != "sat":
        return r
    tries = []
    try:
        m2 = nice(ctx, quad, m, True, rng)
        tries += [ctx.values(m2), ctx.values(m2, angles=False)]
    except Exception:
        pass
    tries += [ctx.values(m), ctx.values(m, angles=False)]
    for vals in tries:
        if st.holds(st.numeric(vals)):
            return vals
    return tries[0]


def nice(ctx, extra, m, rnd, rng=None):
    """Model with simple values for the inputs: fix inputs one by one to simple numbers while the query stays satisfiable."""
    import z3
    st, core = ctx.st, ctx.core
    vs = set()
    for c in list(extra) + st.pc:
        vs |= c.vs
    cons, seen = st.cone(vs)
    s = z3.SimpleSolver()
    s.set("timeout", 3000)
    for c in list(extra) + cons:
        s.add(c.e)
    users = [v for v in st.vars if v.user and v.id in seen]
    for v in st.vars:
        if v.user and v.id not in seen and rng and not z3.is_bool(v.z) and v.lo is not None and v.hi is not None:
            lo, hi = math.ceil(v.lo * (1 if v.isint else 16)), math.floor(v.hi * (1 if v.isint else 16))
            if lo <= hi:
                m = dict(m)
                m[v.name] = Fraction(rng.randint(lo, hi), 1 if v.isint else 16)
    linear = not any(core._nonlinear(c.e, set()) for c in list(extra) + cons)
    budget = 40 if linear else 12
    cur_m = dict(m)

    def trypin(con):
        s.push()
        s.add(con)
        r = s.check()
        if r == z3.sat:
            mm = s.model()
            return dict(cur_m, **{v.name: core.zvalue(mm, v) for v in st.vars if v.id in seen})
        s.pop()
        return None
    order = list(users)
    if rng:
        rng.shuffle(order)
    import time
    t0 = time.time()
    for v in order:
        if budget <= 0 or time.time() - t0 > 15:
            break
        cands = []
        x = cur_m.get(v.name)
        if z3.is_bool(v.z):
            if rng:
                cands = [rng.random() < 0.5]
            else:
                continue
            mm = trypin(v.z if cands[0] else z3.Not(v.z))
            budget -= 1
            if mm:
                cur_m = mm
            continue
        lo = float(v.lo) if v.lo is not None else -4.0
        hi = float(v.hi) if v.hi is not None else 4.0
        if rng:
            for _ in range(2):
                cands.append(Fraction(rng.randint(math.ceil(lo * 16), max(math.ceil(lo * 16), math.floor(hi * 16))), 16) if not v.isint else
                             Fraction(rng.randint(math.ceil(lo), math.floor(hi))))
        elif x is not None:
            for k in (4, 64, 1024, 2 ** 20):
                cands.append(Fraction(round(Fraction(x) * k), k) if not v.isint else Fraction(x))
        for c in cands:
            if (v.lo is not None and c < v.lo) or (v.hi is not None and c > v.hi):
                continue
            mm = trypin(v.z == core.zval(c, v.isint))
            budget -= 1
            if mm:
                cur_m = mm
                break
    if rnd:
        return cur_m
    return ctx.values(cur_m)


class ConcCtx(Base):
    """Runs a harness on the real package with concrete values."""

    symbolic = False

    def __init__(self, values, inst=""):
        import numpy
        self.np = numpy
        self.values = dict(values)
        self.inst = inst
        self._db = None
        self.undo = []
        self.obs = []
        self.nchecks = 0
        self.failures = []
        self.keep_going = False

    # -- environment
    def stub(self, name, value):
        if name.startswith("builtins."):
            return
        if isinstance(value, types.ModuleType) or getattr(value, "_is_module", False):
            old = sys.modules.get(name)
            self.undo.append(lambda: sys.modules.__setitem__(name, old) if old is not None else sys.modules.pop(name, None))
            sys.modules[name] = value
        else:
            mod, _, attr = name.rpartition(".")
            m = importlib.import_module(mod)
            old = getattr(m, attr)
            self.undo.append(lambda: setattr(m, attr, old))
            setattr(m, attr, value)
        self._purge()

    def _purge(self):
        for k in [k for k in sys.modules if k == "diamondback" or k.startswith("diamondback.")]:
            del sys.modules[k]
        self._db = None

    @property
    def db(self):
        if self._db is None:
            self._purge()
            self._db = importlib.import_module("diamondback")
        return self._db

    def fork_db(self):
        self._purge()
        return self.db

    def module(self, name):
        self.db
        return importlib.import_module(name)

    def close_env(self):
        for f in reversed(self.undo):
            f()
        self._purge()

    # -- inputs
    def near(self, name, v, lo, hi):
        """a value near (or instead of) that of a counterexample, when the solver's abstraction did not fix it well enough"""
        if self.jitter is None or hi - lo > 1000:
            return v
        isint = isinstance(v, int)
        if self.rng is None:
            import random
            self.rng = random.Random("%s %d" % (self.inst, self.jitter))
        r, mode = self.rng, self.jitter % 4
        if mode == 0 or (mode == 1 and r.random() < 0.3):
            w = r.randint(lo, hi) if isint else r.uniform(lo, hi)
        elif isint:
            w = min(hi, max(lo, v + r.choice((-1, 0, 0, 1))))
        else:
            w = min(hi, max(lo, v + r.uniform(-1, 1) * (hi - lo) * (0.02 if mode == 2 else 0.1)))
        self.values[name] = w
        return w

    def real(self, name, lo=-4, hi=4): return self.np.float64(self.near(name, float(self._get(name, 0.0)), lo, hi))
    def int(self, name, lo, hi): return int(self.near(name, int(self._get(name, lo)), lo, hi))
    def complex(self, name, lo=-4, hi=4): return self.np.complex128(complex(self.real(name + ".re", lo, hi), self.real(name + ".im", lo, hi)))
    def bool(self, name): return bool(self._get(name, False))
    def choice(self, name, n): return int(self._get(name, 0))
    def flag(self, name): return bool(self._get(name, False))

    def text(self, name, maxlen, minlen=0, lo=32, hi=126):
        n = minlen + (self.choice(name + ".len", maxlen - minlen + 1) if maxlen > minlen else 0)
        return "".join(chr(self.int("%s[%d]" % (name, k), lo, hi)) for k in range(n))

    def use_text(self): pass
    def same_text(self, a, b): return isinstance(a, str) and isinstance(b, str) and a == b
    def letters(self, s): return [ord(x) for x in s]

    def _get(self, name, default):
        return self.values.get(name, default)

    def phasor(self, name):
        f = self.real(name, -1, 1)
        return f, self.np.exp(1j * math.pi * f)

    def arr(self, vals, kind=float):
        return self.np.array(list(vals), kind)

    def plain(self, a): return a
    def dtype(self, a): return a.dtype

    # -- logic
    def all(self, xs): return all(list(xs))
    def any(self, xs): return any(list(xs))
    def both(self, a, b): return bool(a) and bool(b)
    def either(self, a, b): return bool(a) or bool(b)
    def no(self, a): return not a
    def implies(self, a, b): return (not a) or bool(b)
    def ite(self, c, a, b): return a if c else b
    def isconc(self, x): return True

    def assume(self, c):
        if not c:
            raise Abandon()

    def cut(self):
        raise Cut()

    def mark(self, name, n=1):
        pass

    # -- checks
    def check(self, c, label):
        self.nchecks += 1
        if not c:
            self.fail(label, "false")

    def fail(self, label, detail):
        f = Failure(label, detail)
        if self.keep_going:
            self.failures.append((label, detail))
        else:
            raise f

    def close(self, a, b, tol=None, label="equal", scale=1.0):
        tol = (self.tol if tol is None else tol) * scale
        fa, fb = self.flat(a), self.flat(b)
        sa, sb = getattr(a, "shape", None), getattr(b, "shape", None)
        if len(fa) != len(fb) or (sa is not None and sb is not None and tuple(sa) != tuple(sb)):
            self.check(False, label + " (shape)")
            return
        for k, (x, y) in enumerate(zip(fa, fb)):
            self.close1(x, y, tol, label if len(fa) == 1 else "%s[%d]" % (label, k))

    def close1(self, x, y, tol, label):
        self.nchecks += 1
        if len(self.obs) < CHECK_OBS:
            self.obs.append((label, x))
        cx = complex(x) if True else x
        cy = complex(y)
        for p, q in ((cx.real, cy.real), (cx.imag, cy.imag)):
            if math.isnan(p) and math.isnan(q) or p == q:
                continue
            if not (abs(p - q) <= tol):
                self.fail(label, "%r differs from %r by more than %g" % (x, y, tol))
                return

    def real_close(self, x, y, tol, label):
        self.close1(x, y, tol, label)

    def raises(self, fn, *exc):
        try:
            fn()
        except exc or (Exception,):
            return True
        return False

    def observe(self, name, v):
        if len(self.obs) < CHECK_OBS:
            for k, x in enumerate(self.flat(v)):
                self.obs.append(("%s[%d]" % (name, k), x))

    def obs_values(self):
        out = []
        for name, x in self.obs:
            try:
                c = complex(x)
            except Exception:
                continue
            if isinstance(x, complex) or type(x).__name__.startswith("complex"):
                out.append((name, [c.real, c.imag]))
            else:
                out.append((name, c.real))
        return out
