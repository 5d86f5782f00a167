"""Symbolic values, path exploration and solver access.

Numbers are kept as polynomials (normal form: dict monomial -> Fraction) over solver variables.
Everything that is not a polynomial (division, absolute value, square root, conditional, floor, ...) gets a
fresh solver variable together with its defining constraints.
"""
import math
import os
import time
from fractions import Fraction

import numpy as np
import z3

U = 2.0 ** -53          # unit roundoff of binary64
PI = Fraction(math.pi)


class EngineStop(BaseException):
    """Engine control flow: never caught by code under test."""


class Unsupported(EngineStop):
    """The code reached something that this engine does not encode."""


class Infeasible(EngineStop):
    """The current path cannot be taken (an assumption is false)."""


class PathCut(EngineStop):
    """A path ended on purpose by a harness or stub; everything checked before counts."""


class BudgetExceeded(EngineStop):
    pass


class CheckFailed(EngineStop):
    """A check failed on this path; a counterexample is recorded."""


# ----------------------------------------------------------------------------------------------------------------
# variables


class Var:
    __slots__ = ("id", "name", "z", "isint", "lo", "hi", "defs", "sq", "user", "links", "ev", "inv", "recip")

    def __init__(self, id, name, z, isint, lo, hi, user):
        self.id, self.name, self.z, self.isint = id, name, z, isint
        self.lo, self.hi, self.user = lo, hi, user
        self.defs = []      # list of Con that define this variable
        self.sq = None      # polynomial replacing var**2
        self.links = ()
        self.recip = None   # for the reciprocal of a polynomial: that polynomial
        self.inv = None     # id of the variable that is its reciprocal
        self.ev = None      # float value from the values of earlier variables


class Con:
    """A constraint: solver expression and the ids of the variables in it."""

    __slots__ = ("e", "vs", "lin", "wide")

    def __init__(self, e, vs):
        self.e, self.vs, self.lin, self.wide = e, vs, None, None


CUR = None  # current path state


def cur():
    if CUR is None:
        raise Unsupported("symbolic operation outside a path")
    return CUR


class Stats:
    def __init__(self):
        self.queries = self.sat = self.unsat = self.unknown = 0
        self.solver_s = 0.0
        self.checks = self.decisions = self.paths = self.cut = self.infeasible = 0
        self.rounding_covered = self.rounding_open = 0
        self.symbolic_queries = 0
        self.maxvars = 0


class State:
    """State of one path."""

    def __init__(self, prefix=(), stats=None, deadline=None, timeout_ms=20000, seed=1):
        self.prefix = list(prefix)
        self.trace = []          # decisions made so far
        self.alts = []           # alternative prefixes discovered on this path
        self.vars = []
        self.byname = {}
        self.pc = []             # list of Con
        self.cache = {}
        self.stats = stats or Stats()
        self.deadline = deadline
        self.timeout_ms = timeout_ms
        self.cis = {}            # atom -> {den: (cvarid, svarid)}
        self.exps = []
        self.consts = {}         # canonical long constants
        self.facts = {}          # bounds of polynomials, see range()
        self.bounds = {}         # solver-derived magnitude bounds of unbounded variables
        self.seed = seed
        self.notes = {}
        self.bool_ids = {}
        self.model_hint = None
        self.has_inv = False

    # -- variables
    def new(self, name, isint=False, lo=None, hi=None, user=False):
        if name in self.byname:
            raise Unsupported("duplicate variable " + name)
        z = z3.Int(name) if isint else z3.Real(name)
        v = Var(len(self.vars), name, z, isint, lo, hi, user)
        self.vars.append(v)
        self.byname[name] = v
        vs = frozenset((v.id,))
        if lo is not None:
            v.defs.append(Con(z >= zval(lo, isint), vs))
        if hi is not None:
            v.defs.append(Con(z <= zval(hi, isint), vs))
        return v

    def newbool(self, name, user=False):
        z = z3.Bool(name)
        v = Var(len(self.vars), name, z, False, None, None, user)
        self.vars.append(v)
        self.byname[name] = v
        return v

    def fresh(self, tag, isint=False, lo=None, hi=None):
        return self.new("%s!%d" % (tag, len(self.vars)), isint, lo, hi)

    # -- solver
    def wide(self, con):
        """The variables of con and those they are defined from by linear definitions (cached)."""
        if con.wide is None:
            seen, todo = set(), list(con.vs)
            while todo:
                i = todo.pop()
                if i in seen:
                    continue
                seen.add(i)
                for d in self.vars[i].defs:
                    if d.lin is None:
                        d.lin = not _nonlinear(d.e, set())
                    if d.lin:
                        todo.extend(d.vs - seen)
            con.wide = seen
        return con.wide

    def cone(self, vs):
        """All constraints (definitions and path condition) connected to vs."""
        seen, out, pcs = set(), [], list(self.pc)
        todo = list(vs)
        while True:
            while todo:
                i = todo.pop()
                if i in seen:
                    continue
                seen.add(i)
                for c in self.vars[i].defs:
                    out.append(c)
                    todo.extend(c.vs - seen)
                todo.extend(j for j in self.vars[i].links if j not in seen)
            rest = []
            for c in pcs:
                if c.vs & seen or self.wide(c) & seen:
                    out.append(c)
                    todo.extend(c.vs - seen)
                else:
                    rest.append(c)
            pcs = rest
            if not todo:
                break
        return out, seen

    def solve(self, extra, full=False, timeout_ms=None, want_model=False):
        """Returns (verdict, model). extra: list of Con."""
        if self.deadline and time.time() > self.deadline:
            raise BudgetExceeded("time budget of the instance used up")
        vs = set()
        for c in extra:
            vs |= c.vs
        if full:
            # definitions have a value for every input, so the path condition decides
            for c in self.pc:
                vs |= c.vs
        cons, seen = self.cone(vs)
        es, ids = [], set()
        for c in list(extra) + cons:
            i = c.e.get_id()
            if i not in ids:
                ids.add(i)
                es.append(c.e)
        t0 = time.time()
        r, m = z3solve(es, [self.vars[i] for i in seen], timeout_ms or self.timeout_ms, self.seed)
        dt = time.time() - t0
        st = self.stats
        st.queries += 1
        st.solver_s += dt
        if es:
            st.symbolic_queries += 1
        st.maxvars = max(st.maxvars, len(seen))
        if r == "sat":
            st.sat += 1
        elif r == "unsat":
            st.unsat += 1
        else:
            st.unknown += 1
        if os.environ.get("VERIF_TRACE") and dt > 1.0:
            import sys as _s
            print("SLOW %.1fs %s vars=%d cons=%d" % (dt, r, len(seen), len(es)), file=_s.stderr, flush=True)
            if os.environ.get("VERIF_TRACE") == "2":
                for e in es:
                    print("   ", str(e)[:600], file=_s.stderr, flush=True)
        return r, m

    def numeric(self, values):
        """Float values of all variables for given input values (None where there is no evaluation)."""
        env = []
        for v in self.vars:
            x = None
            if v.user:
                x = values.get(v.name)
                if x is not None and not isinstance(x, bool):
                    x = float(x)
            elif v.ev is not None:
                try:
                    x = v.ev(env)
                except (TypeError, ZeroDivisionError, ValueError, OverflowError):
                    x = None
            env.append(x)
        return env

    def holds(self, env):
        """The path condition under float values: True, False or None (not evaluable)."""
        ids = {v.name: v.id for v in self.vars}
        memo = {}
        for c in self.pc:
            r = zev(c.e, env, ids, memo)
            if r is None:
                return None
            if not r:
                return False
        return True

    # -- facts: bounds of polynomials without constant term, from variable bounds and from decisions
    def range(self, key):
        """[lower bound, strict, upper bound, strict, decisions] of the polynomial of key; bounds may be None"""
        f = self.facts.get(key)
        if f is None:
            lo = hi = Fraction(0)
            for m, k in key:
                a, b = self.interval(m)
                if k < 0:
                    a, b = b, a
                lo = None if a is None or lo is None else lo + a * k
                hi = None if b is None or hi is None else hi + b * k
            if 1 < len(key) <= 60 and any(len(m) == 2 for m, _ in key) and all(len(m) <= 2 for m, _ in key):
                # squares completed
                a, b = quad_min(dict(key)), quad_min({m: -k for m, k in key})
                if a is not None and (lo is None or a > lo):
                    lo = a
                if b is not None and (hi is None or -b < hi):
                    hi = -b
            f = self.facts[key] = [lo, False, hi, False, 0]
        return f

    def interval(self, m):
        v = self.vars[m[0]]
        lo, hi = v.lo, v.hi
        lo, hi = None if lo is None else Fraction(lo), None if hi is None else Fraction(hi)
        if len(m) == 1:
            return lo, hi
        if all(i == m[0] for i in m) and len(m) % 2 == 0:
            if lo is None or hi is None:
                return Fraction(0), None
            b = max(-lo, hi, key=abs) ** len(m)
            return Fraction(0) if lo <= 0 <= hi else min(abs(lo), abs(hi)) ** len(m), b
        b = Fraction(1)
        for i in m:
            v = self.vars[i]
            if v.lo is None or v.hi is None:
                return None, None
            b *= max(abs(Fraction(v.lo)), abs(Fraction(v.hi)))
        return -b, b

    def implied(self, lin):
        """True or False when known facts settle the atom, else None"""
        key, kind, t = lin
        lo, ls, hi, hs, _ = self.range(key)
        if kind in ("==", "!="):
            if (lo is not None and (lo > t or (lo == t and ls))) or (hi is not None and (hi < t or (hi == t and hs))):
                return kind == "!="
            return None
        neg = kind in (">", ">=")
        if neg:
            kind = "<=" if kind == ">" else "<"
        r = None
        if kind == "<":
            if hi is not None and (hi < t or (hi == t and hs)):
                r = True
            elif lo is not None and lo >= t:
                r = False
        else:
            if hi is not None and hi <= t:
                r = True
            elif lo is not None and (lo > t or (lo == t and ls)):
                r = False
        return r if r is None or not neg else not r

    def learn(self, lin):
        key, kind, t = lin
        f = self.range(key)
        if kind in ("<", "<=", "=="):
            s = kind == "<"
            if f[2] is None or t < f[2] or (t == f[2] and s):
                f[2], f[3] = t, s
        if kind in (">", ">=", "=="):
            s = kind == ">"
            if f[0] is None or t > f[0] or (t == f[0] and s):
                f[0], f[1] = t, s

    def widen(self, lin):
        """a stronger fact than lin, for polynomials that are compared again and again; None when there is none near"""
        key, kind, t = lin
        f = self.range(key)
        f[4] += 1
        if f[4] < 4 or kind not in ("<", "<=", ">", ">="):
            return None
        up = kind[0] == ">"
        scale = max(Fraction(1), abs(t))
        for d in (1, Fraction(1, 4), Fraction(1, 16)):
            u = t + d * scale if up else t - d * scale
            if self.implied((key, ">=" if up else "<=", u)) is not None:
                return None
            c = atom({**dict(key), (): -u}, "<") if up else atom({**{m: -k for m, k in key}, (): u}, "<")
            r, _ = self.solve([Con(c.e, c.vs)], timeout_ms=300)
            if r == "unsat":
                return (key, ">=" if up else "<=", u)
            if r != "sat":
                return None
        return None

    # -- decisions
    def branch(self, con, neg, lin=None):
        """Decide a symbolic condition: returns True or False and records it."""
        self.stats.decisions += 1
        if lin is not None:
            r = self.implied(lin)
            if r is not None:
                return r
        d = self._branch(con, neg, lin)
        if lin is not None:
            self.learn(lin if d[0] else flip(lin))
            if len(d) > 2 and d[2] is not None:
                self.learn(d[2])
        return d[0]

    def _branch(self, con, neg, lin):
        k = len(self.trace)
        if k < len(self.prefix):
            d = self.prefix[k]
            self.trace.append(d)
            self.pc.append(con if d[0] else neg)
            return d
        # an undecided side is explored
        rt, _ = self.solve([con], timeout_ms=min(6000, self.timeout_ms))
        if rt == "unsat":
            d = (False, True)
        else:
            rf, _ = self.solve([neg], timeout_ms=min(6000, self.timeout_ms))
            if rf == "unsat":
                d = (True, True)
            else:
                d = (True, False)
                self.alts.append(self.trace + [(False, False)])
        if d[1] and lin is not None:
            d = d + (self.widen(lin if d[0] else flip(lin)),)
        self.trace.append(d)
        self.pc.append(con if d[0] else neg)
        return d

    def decided(self, c):
        """True or False when the path condition alone settles c (with products as unknowns), else None."""
        if c.lin is not None:
            r = self.implied(c.lin)
            if r is not None:
                return r
        if not self.pc:
            return None
        key = ("decided", c.e.get_id(), len(self.pc))
        if key in self.cache:
            return self.cache[key][0]
        r = None
        cons, seen = self.cone(c.vs)
        if any(x in self.pc for x in cons):
            es = [x.e for x in cons]
            vs = [self.vars[i] for i in seen]
            t0 = time.time()
            if _attempt("lin", es + [c.e], vs, 300)[0] == "unsat":
                r = False
            elif _attempt("lin", es + [c.n], vs, 300)[0] == "unsat":
                r = True
            self.stats.solver_s += time.time() - t0
        self.cache[key] = (r, c)
        return r

    def assume(self, con):
        self.pc.append(con)
        if len(self.trace) >= len(self.prefix):
            r, _ = self.solve([con])
            if r == "unsat":
                raise Infeasible()


def zval(x, isint=False):
    if isint:
        return z3.IntVal(int(x))
    f = x if isinstance(x, Fraction) else Fraction(x)
    return z3.RealVal(str(f.numerator) + "/" + str(f.denominator)) if f.denominator != 1 else z3.RealVal(f.numerator)


def _nonlinear(e, memo):
    todo = [e]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in memo:
            continue
        memo.add(i)
        if z3.is_app(x):
            k = x.decl().kind()
            if k == z3.Z3_OP_MUL:
                n = 0
                for a in x.children():
                    if not (z3.is_rational_value(a) or z3.is_int_value(a)):
                        n += 1
                if n > 1:
                    return True
            elif k == z3.Z3_OP_POWER:
                return True
            todo.extend(x.children())
    return False


def z3solve(es, vars, timeout_ms, seed):
    if not es:
        return "sat", {}
    memo = set()
    nonlin = any(_nonlinear(e, memo) for e in es)
    anyint = any(v.isint for v in vars)
    anybool = any(z3.is_bool(v.z) for v in vars)
    if not nonlin:
        for kind in ("smt", "cvc5"):
            r = _attempt(kind, es, vars, timeout_ms)
            if r[0] != "unknown":
                return r
        return "unknown", None
    r = _attempt("lin", es, vars, 1000)
    if r[0] == "unsat":
        return r
    mixed = anyint or anybool
    # a portfolio of separate processes: z3 does not always end at its own timeout
    return _race([("smt", 0.0), ("nl2", 2.0), ("cvc5", 4.0)] if mixed else [("nlsat", 0.0), ("smt", 0.3), ("cvc5", 4.0)], es, vars, timeout_ms)


def _attempt(kind, es, vars, tmo):
    try:
        if kind == "cvc5":
            r = cvc5_solve(es, tmo)
            return ("unsat", None) if r == "unsat" else ("unknown", None)
        if kind == "nlsat":
            s = z3.Tactic("qfnra-nlsat").solver()
        elif kind == "nl2":
            s = z3.Then("simplify", "solve-eqs", "smt").solver()
        else:
            s = z3.SimpleSolver()
            if kind == "lin":
                # products as unknowns: only an unsat verdict counts
                s.set("arith.nl", False)
        s.set("timeout", int(tmo))
        for e in es:
            s.add(e)
        r = s.check()
        if r == z3.unsat:
            return "unsat", None
        if r == z3.sat and kind != "lin":
            m = s.model()
            return "sat", {v.name: zvalue(m, v) for v in vars}
    except z3.Z3Exception:
        pass
    return "unknown", None


def _race(kinds, es, vars, timeout_ms):
    import pickle
    import select
    import signal
    t0 = time.time()
    end = t0 + timeout_ms / 1000.0
    procs, todo = {}, list(kinds)
    try:
        while True:
            now = time.time()
            if now > end + 0.5:
                return "unknown", None
            while todo and (now - t0 >= todo[0][1] or not procs):
                kind = todo.pop(0)[0]
                rd, wr = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.close(rd)
                        r = _attempt(kind, es, vars, max(100, 1000 * (end - now)))
                        data = pickle.dumps(r)
                        while data:
                            data = data[os.write(wr, data):]
                    except BaseException:
                        pass
                    finally:
                        os._exit(0)
                os.close(wr)
                procs[rd] = pid
            if not procs:
                return "unknown", None
            wait = (todo[0][1] + t0 if todo else end + 0.5) - time.time()
            ready, _, _ = select.select(list(procs), [], [], max(0.0, min(wait, 1.0)))
            for fd in ready:
                data = b""
                while True:
                    d = os.read(fd, 65536)
                    if not d:
                        break
                    data += d
                os.waitpid(procs.pop(fd), 0)
                os.close(fd)
                if data:
                    r = pickle.loads(data)
                    if r[0] != "unknown":
                        return r
            if not procs and not todo:
                return "unknown", None
    finally:
        for fd, pid in procs.items():
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(fd)


def cvc5_solve(es, tmo):
    try:
        import cvc5
    except Exception:
        return "unknown"
    s = z3.Solver()
    for e in es:
        s.add(e)
    txt = s.to_smt2()
    slv = cvc5.Solver()
    slv.setOption("tlimit", str(int(tmo)))
    slv.setOption("nl-cov", "true")
    p = cvc5.InputParser(slv)
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n" + "\n".join(
        l for l in txt.splitlines() if not l.startswith("(set-")), "q")
    sm = p.getSymbolManager()
    res = "unknown"
    try:
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            out = cmd.invoke(slv, sm)
            out = str(out).strip()
            if out.startswith("(error"):
                return "unknown"
            if out in ("sat", "unsat", "unknown"):
                res = out
    except Exception:
        return "unknown"
    return res


def zvalue(m, v):
    r = m.eval(v.z, model_completion=True)
    if z3.is_bool(v.z):
        return bool(z3.is_true(r))
    if z3.is_int_value(r):
        return r.as_long()
    if z3.is_rational_value(r):
        return Fraction(r.numerator_as_long(), r.denominator_as_long())
    if z3.is_algebraic_value(r):
        a = r.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise Unsupported("model value " + str(r))


def zev(e, env, ids, memo):
    """Float value of a solver expression; None when it has no value."""
    k = e.get_id()
    if k in memo:
        return memo[k]
    r = _zev(e, env, ids, memo)
    memo[k] = r
    return r


def _zev(e, env, ids, memo):
    if z3.is_rational_value(e):
        try:
            return e.numerator_as_long() / e.denominator_as_long()
        except OverflowError:
            return None
    if z3.is_int_value(e):
        x = fl(e.as_long())
        return None if math.isinf(x) else x
    k = e.decl().kind()
    if k == z3.Z3_OP_UNINTERPRETED:
        i = ids.get(e.decl().name())
        return None if i is None or e.num_args() else env[i]
    if k == z3.Z3_OP_TRUE:
        return True
    if k == z3.Z3_OP_FALSE:
        return False
    a = [zev(x, env, ids, memo) for x in e.children()]
    if k == z3.Z3_OP_AND:
        return False if any(x is False for x in a) else None if None in a else True
    if k == z3.Z3_OP_OR:
        return True if any(x is True for x in a) else None if None in a else False
    if any(x is None for x in a):
        return None
    if k == z3.Z3_OP_ADD:
        return math.fsum(a)
    if k == z3.Z3_OP_MUL:
        r = 1.0
        for x in a:
            r *= x
        return r
    if k == z3.Z3_OP_SUB:
        return a[0] - math.fsum(a[1:])
    if k == z3.Z3_OP_UMINUS:
        return -a[0]
    if k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
        if not a[1]:
            return None
        return a[0] / a[1] if k == z3.Z3_OP_DIV else float(a[0] // a[1]) if k == z3.Z3_OP_IDIV else a[0] % a[1]
    if k == z3.Z3_OP_TO_REAL:
        return a[0]
    if k == z3.Z3_OP_TO_INT:
        return float(math.floor(a[0]))
    if k == z3.Z3_OP_NOT:
        return not a[0]
    if k == z3.Z3_OP_IMPLIES:
        return (not a[0]) or a[1]
    if k == z3.Z3_OP_ITE:
        return a[1] if a[0] else a[2]
    if k == z3.Z3_OP_LE:
        return a[0] <= a[1]
    if k == z3.Z3_OP_LT:
        return a[0] < a[1]
    if k == z3.Z3_OP_GE:
        return a[0] >= a[1]
    if k == z3.Z3_OP_GT:
        return a[0] > a[1]
    if k == z3.Z3_OP_EQ:
        return a[0] == a[1]
    if k == z3.Z3_OP_DISTINCT:
        return len(set(a)) == len(a)
    return None


def fl(c):
    """float of a rational number, infinite beyond the range of doubles"""
    try:
        return float(c)
    except OverflowError:
        return math.inf if c > 0 else -math.inf


def pev(p, env):
    """Float value of a polynomial (TypeError when a variable has no value)."""
    ts = []
    for m, c in p.items():
        t = fl(c)
        if math.isinf(t):
            raise TypeError("beyond the range of doubles")
        for i in m:
            t *= env[i]
        ts.append(t)
    return math.fsum(ts)


# ----------------------------------------------------------------------------------------------------------------
# polynomials

ONE = ()


def p_add(a, b, k=1):
    if not b:
        return a
    r = dict(a)
    for m, c in b.items():
        n = r.get(m)
        c = c if k == 1 else c * k
        if n is None:
            r[m] = c
        else:
            n = n + c
            if n:
                r[m] = n
            else:
                del r[m]
    return r


def p_scale(a, k):
    if not k:
        return {}
    if k == 1:
        return a
    return {m: c * k for m, c in a.items()}


def _reduce(m):
    """Find a variable with a square rule occurring twice in sorted monomial m."""
    st = CUR
    for i in range(len(m) - 1):
        if m[i] == m[i + 1] and st is not None and st.vars[m[i]].sq is not None:
            return i
    return -1


def _cancel(m):
    """Remove pairs of a variable and its reciprocal from sorted monomial m."""
    vs = CUR.vars
    i = 0
    while i < len(m):
        j = vs[m[i]].inv
        if j is not None and j > m[i] and j in m:
            l = list(m)
            l.remove(m[i])
            l.remove(j)
            m = tuple(l)
        else:
            i += 1
    return m


def p_mul(a, b):
    if len(a) > len(b):
        a, b = b, a
    if not a:
        return {}
    if len(a) == 1 and ONE in a:
        return p_scale(b, a[ONE])
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            c = c1 * c2
            if not m1:
                m = m2
            elif not m2:
                m = m1
            else:
                m = tuple(sorted(m1 + m2))
                if CUR is not None and CUR.has_inv:
                    m = _cancel(m)
                i = _reduce(m)
                if i >= 0:
                    rest = m[:i] + m[i + 2:]
                    j = _reduce(rest)
                    t = {rest: Fraction(1)} if j < 0 else p_mul({rest[j:j + 1]: Fraction(1)}, {rest[:j] + rest[j + 1:]: Fraction(1)})
                    q = p_scale(p_mul(CUR.vars[m[i]].sq, t), c)
                    r = p_add(r, q)
                    continue
            n = r.get(m)
            if n is None:
                r[m] = c
            else:
                n = n + c
                if n:
                    r[m] = n
                else:
                    del r[m]
        if len(r) > 200000:
            raise Unsupported("polynomial too large")
    return r


def quad_min(q):
    """The least value of a polynomial of degree two over all real numbers, by completing squares; None when unbounded"""
    c = Fraction(0)
    q = dict(q)
    while q:
        m = next((m for m in q if len(m) == 2 and m[0] == m[1]), None)
        if m is None or q[m] < 0:
            return None
        x, a = m[0], q.pop(m)
        lin = {}
        for t in [t for t in q if x in t]:
            lin[tuple(i for i in t if i != x)] = q.pop(t)
        # a x^2 + x L = a (x + L / (2 a))^2 - L^2 / (4 a)
        ts = list(lin.items())
        for i, (u, ku) in enumerate(ts):
            for v, kv in ts:
                w = tuple(sorted(u + v))
                k = -ku * kv / (4 * a)
                if not w:
                    c += k
                    continue
                k += q.get(w, 0)
                if k:
                    q[w] = k
                else:
                    q.pop(w, None)
    return c


def p_clear(p, limit=4000):
    """p multiplied by the divisors of the quotients in it (all of them nonzero), None beyond a size; zero only if p is"""
    vs = CUR.vars
    while p:
        top = -1
        for m in p:
            for i in m:
                if i > top and vs[i].recip is not None:
                    top = i
        if top < 0:
            return p
        d = max(m.count(top) for m in p)
        powers = [{ONE: Fraction(1)}]
        for _ in range(d):
            powers.append(p_mul(powers[-1], vs[top].recip))
            if len(powers[-1]) > limit:
                return None
        parts = {}
        for m, c in p.items():
            k = m.count(top)
            parts.setdefault(d - k, {})[tuple(i for i in m if i != top)] = c
        p = {}
        for k, q in parts.items():
            if len(q) * len(powers[k]) > 40 * limit:
                return None
            p = p_add(p, p_mul(q, powers[k]))
        if len(p) > limit:
            return None
    return p


def p_const(p):
    """Fraction if constant, else None."""
    if not p:
        return Fraction(0)
    if len(p) == 1 and ONE in p:
        return p[ONE]
    return None


def var_bound(v):
    """A bound of the magnitude of a variable on this path, or None: from its range, else decided by the solver."""
    if v.lo is not None and v.hi is not None:
        return max(abs(Fraction(v.lo)), abs(Fraction(v.hi)))
    st = cur()
    b = st.bounds.get(v.id)
    if b is None:
        b = False
        for k in (16, 4096, 10 ** 8):
            con = Con(z3.Or(v.z > k, v.z < -k), frozenset((v.id,)))
            try:
                r, _ = st.solve([con], timeout_ms=3000)
            except z3.Z3Exception:
                break
            if r == "unsat":
                b = Fraction(k)
                break
        st.bounds[v.id] = b
    return b or None


def split_small(p, limit):
    """(rest, slack): the monomials of p without those whose magnitudes add up to at most slack <= limit"""
    rest, slack = {}, Fraction(0)
    for m, c in p.items():
        if m and abs(c) < Fraction(1, 10 ** 11):
            b = abs(c)
            for i in m:
                k = var_bound(cur().vars[i])
                if k is None:
                    b = None
                    break
                b = b * k
            if b is not None and slack + b <= limit:
                slack += b
                continue
        rest[m] = c
    return rest, slack


def p_key(p):
    """Identifies a polynomial up to rounding of its coefficients."""
    return frozenset(p_canon(p).items())


def canon(c):
    """One representative of the long coefficients met so far that agree up to a few units in the last place (per path).

    Equal constants computed in different ways then denote the same number; the deviation is below 1e-14 of the constant."""
    if c.denominator.bit_length() <= 32 and c.numerator.bit_length() <= 53:
        return c
    st = CUR
    if st is None:
        return c
    tab = st.consts
    r = tab.get(c)
    if r is not None:
        return r
    if c < 0:
        r = tab[c] = -canon(-c)
        return r
    f = fl(c)
    if not f or not math.isfinite(f):
        return c
    m, x = math.frexp(f)
    k = round(m * 2.0 ** 47)
    for j in (k, k - 1, k + 1):
        r = tab.get((j, x))
        if r is not None:
            tab[c] = r
            return r
    s = Fraction(f).limit_denominator(4096)
    r = s if s and abs(s - c) <= abs(c) * Fraction(1, 2 ** 48) else c
    tab[c] = tab[(k, x)] = r
    return r


def p_canon(p):
    """canonical coefficients, without monomials of bounded variables that rounding left behind"""
    q = {m: canon(c) for m, c in p.items()}
    big = max((abs(c) for c in q.values()), default=0)
    small = [m for m, c in q.items() if m and abs(c) < big * EPS15]
    for m in small:
        for i in m:
            v = CUR.vars[i]
            if v.lo is None or v.hi is None or v.hi > 1000 or v.lo < -1000:
                break
        else:
            del q[m]
    return q


EPS15 = Fraction(2, 10 ** 15)


def p_vars(p):
    s = set()
    for m in p:
        s.update(m)
    return frozenset(s)


def p_z3(p, toint=False):
    st = cur()
    if toint:
        ts = []
        for m, c in p.items():
            t = z3.IntVal(int(c))
            if m:
                f = None
                for i in m:
                    f = st.vars[i].z if f is None else f * st.vars[i].z
                t = f if c == 1 else t * f
            ts.append(t)
        return ts[0] if len(ts) == 1 else z3.Sum(ts) if ts else z3.IntVal(0)
    ts = []
    for m, c in p.items():
        f = None
        for i in m:
            v = st.vars[i]
            z = z3.ToReal(v.z) if v.isint else v.z
            f = z if f is None else f * z
        if f is None:
            t = zval(c)
        elif c == 1:
            t = f
        else:
            t = zval(c) * f
        ts.append(t)
    return ts[0] if len(ts) == 1 else z3.Sum(ts) if ts else z3.RealVal(0)


def p_int(p):
    """True if every coefficient is an integer and every variable is an integer."""
    st = cur()
    for m, c in p.items():
        if c.denominator != 1:
            return False
        for i in m:
            if not st.vars[i].isint:
                return False
    return True


# ----------------------------------------------------------------------------------------------------------------
# booleans


class SymBool:
    __array_ufunc__ = None
    __slots__ = ("e", "n", "vs", "lin")

    def __init__(self, e, n, vs, lin=None):
        self.e, self.n, self.vs, self.lin = e, n, vs, lin

    def __bool__(self):
        return cur().branch(Con(self.e, self.vs), Con(self.n, self.vs), self.lin)

    def __repr__(self):
        return "<symbool>"

    def __format__(self, spec):
        return "<symbool>"

    def _arr(self, o, f):
        from . import arr
        return arr.binop_scalar_array(f, self, o)

    def __and__(self, o):
        if isinstance(o, np.ndarray):
            return self._arr(o, np.logical_and)
        return b_and(self, tobool(o))

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray):
            return self._arr(o, np.logical_or)
        return b_or(self, tobool(o))

    __ror__ = __or__

    def __xor__(self, o):
        o = tobool(o)
        return b_or(b_and(self, b_not(o)), b_and(b_not(self), o))

    __rxor__ = __xor__

    def __invert__(self):
        return b_not(self)

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_, SymBool)):
            return b_not(self ^ o)
        return self.num() == o

    def __ne__(self, o):
        return b_not(self == o)

    def __hash__(self):
        return hash(bool(self))

    def num(self):
        return ite(self, mkint(1), mkint(0))

    def __index__(self):
        return 1 if self else 0

    __int__ = __index__

    def __float__(self):
        return 1.0 if self else 0.0

    def __add__(self, o): return self.num() + o
    def __radd__(self, o): return o + self.num()
    def __sub__(self, o): return self.num() - o
    def __rsub__(self, o): return o - self.num()
    def __mul__(self, o): return self.num() * o
    def __rmul__(self, o): return o * self.num()
    def __lt__(self, o): return self.num() < o
    def __le__(self, o): return self.num() <= o
    def __gt__(self, o): return self.num() > o
    def __ge__(self, o): return self.num() >= o
    def __neg__(self): return -self.num()

    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    @property
    def dtype(self): return np.dtype(bool)
    def any(self, *a, **k): return self
    def all(self, *a, **k): return self
    def item(self): return self


def isbool(x):
    return isinstance(x, (bool, np.bool_))


def tobool(o):
    if isinstance(o, SymBool):
        return o
    if isbool(o):
        return bool(o)
    if isinstance(o, SymNum):
        return o != 0
    if isinstance(o, SymComplex):
        return o != 0
    return bool(o)


def b_not(a):
    a = tobool(a)
    if isinstance(a, bool):
        return not a
    return SymBool(a.n, a.e, a.vs, None if a.lin is None else flip(a.lin))


def b_and(a, b):
    a, b = tobool(a), tobool(b)
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return SymBool(z3.And(a.e, b.e), z3.Or(a.n, b.n), a.vs | b.vs)


def b_or(a, b):
    a, b = tobool(a), tobool(b)
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return SymBool(z3.Or(a.e, b.e), z3.And(a.n, b.n), a.vs | b.vs)


def b_all(xs):
    es, ns, vs = [], [], frozenset()
    for x in xs:
        x = tobool(x)
        if x is False:
            return False
        if x is True:
            continue
        es.append(x.e)
        ns.append(x.n)
        vs = vs | x.vs
    if not es:
        return True
    if len(es) == 1:
        return SymBool(es[0], ns[0], vs)
    return SymBool(z3.And(es), z3.Or(ns), vs)


def b_any(xs):
    return b_not(b_all([b_not(x) for x in xs]))


def b_ite(c, a, b):
    c = tobool(c)
    if isinstance(c, bool):
        return a if c else b
    return b_or(b_and(c, a), b_and(b_not(c), b))


def b_implies(a, b):
    return b_or(b_not(a), b)


def mkbool(name, user=False):
    v = cur().newbool(name, user)
    return SymBool(v.z, z3.Not(v.z), frozenset((v.id,)))


FLIP = {"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}


def flip(lin):
    return (lin[0], FLIP[lin[1]], lin[2])


def atom(p, op):
    """SymBool for polynomial p <op> 0, op in '<','<=','==' ."""
    c = p_const(p)
    if c is not None:
        return bool(c < 0) if op == "<" else bool(c <= 0) if op == "<=" else bool(c == 0)
    st = cur()
    if any(len(m) > 1 for m in p):
        p = p_canon(p)
    key = ("atom", op, frozenset(p.items()))
    r = st.cache.get(key)
    if r is not None:
        return r
    # scale to make the leading coefficients moderate
    isint = all(st.vars[i].isint for m in p for i in m)
    if isint:
        d = 1
        for c in p.values():
            d = d * c.denominator // math.gcd(d, c.denominator)
        q = p_z3({m: c * d for m, c in p.items()}, True)
        zero = z3.IntVal(0)
    else:
        q = p_z3(p)
        zero = z3.RealVal(0)
    vs = p_vars(p)
    if op == "<":
        r = SymBool(q < zero, q >= zero, vs)
    elif op == "<=":
        r = SymBool(q <= zero, q > zero, vs)
    else:
        r = SymBool(q == zero, q != zero, vs)
    # monomial-ordered polynomial with leading coefficient one, compared to a constant
    k = p.get((), Fraction(0))
    w = min(m for m in p if m)
    c0 = p[w]
    kind = op if c0 > 0 else {"<": ">", "<=": ">="}.get(op, op)
    r.lin = (frozenset((m, c / c0) for m, c in p.items() if m), kind, Fraction(-k) / c0)
    st.cache[key] = r
    return r


# ----------------------------------------------------------------------------------------------------------------
# numbers

CONC = (int, float, np.integer, np.floating, Fraction)


def isconc(x):
    return isinstance(x, CONC) and not isinstance(x, (SymNum,))


def _isbad(x):
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


class SymNum:
    """A real or integer number: polynomial p, magnitude bound m, accumulated rounding-error bound e."""

    __array_ufunc__ = None
    __slots__ = ("p", "m", "e")
    isint = False

    def __init__(self, p, m=math.inf, e=0.0):
        self.p, self.m, self.e = p, m, e

    # -- helpers
    def const(self):
        return p_const(self.p)

    def __repr__(self):
        c = self.const()
        return "<sym %s>" % (float(c) if c is not None else len(self.p))

    def __format__(self, spec):
        return repr(self)

    __str__ = __repr__

    def __hash__(self):
        return hash(self.concretize())

    def concretize(self):
        c = self.const()
        if c is not None:
            return int(c) if self.isint else float(c)
        if not self.isint:
            raise Unsupported("concrete value of a symbolic real is needed")
        st = cur()
        for _ in range(4096):
            k = len(st.trace)
            # deterministic candidate: smallest value first through a solver model in stable order
            if k < len(st.prefix) and len(st.prefix[k]) > 2:
                v = st.prefix[k][2]
            else:
                v = self._candidate()
            b = self == v
            if isinstance(b, bool):
                if b:
                    return v
                continue
            if k < len(st.prefix):
                d = st.prefix[k]
                st.stats.decisions += 1
                st.trace.append(d)
                st.pc.append(Con(b.e, b.vs) if d[0] else Con(b.n, b.vs))
                if d[0]:
                    return v
                continue
            st.stats.decisions += 1
            r, _ = st.solve([Con(b.n, b.vs)])
            if r != "unsat":
                st.alts.append(st.trace + [(False, False, v)])
                d = (True, False, v)
            else:
                d = (True, True, v)
            st.trace.append(d)
            st.pc.append(Con(b.e, b.vs))
            return v
        raise Unsupported("too many values to concretize")

    def _candidate(self):
        st = cur()
        t = p_z3(self.p, True)
        # ask for a model with this value pinned to a result constant
        rv = st.cache.get(("cand", p_key(self.p)))
        if rv is None:
            rv = st.fresh("cand", True)
            st.cache[("cand", p_key(self.p))] = rv
            rv.ev = lambda env, p=self.p: float(round(pev(p, env)))
            rv.defs.append(Con(rv.z == t, p_vars(self.p) | {rv.id}))
        r, m = st.solve([Con(rv.z == t, p_vars(self.p) | {rv.id})])
        if r != "sat":
            if r == "unsat":
                raise Infeasible()
            raise Unsupported("no candidate for concretization")
        return int(m[rv.name])

    def __index__(self):
        if not self.isint:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return self.concretize()

    def __int__(self):
        c = self.const()
        if c is not None:
            return int(c)
        return trunc(self).concretize()

    def __float__(self):
        c = self.const()
        if c is not None:
            return float(c)
        raise Unsupported("float() of a symbolic number")

    def __complex__(self):
        return complex(float(self))

    def __bool__(self):
        return bool(self != 0)

    # -- numpy-scalar-like surface
    @property
    def real(self): return self
    @property
    def imag(self): return mkreal(0) if not self.isint else mkint(0)
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    @property
    def size(self): return 1
    @property
    def dtype(self): return np.dtype("int64") if self.isint else np.dtype("float64")
    @property
    def T(self): return self
    def conjugate(self): return self
    conj = conjugate
    def item(self): return self
    def copy(self): return self
    def sum(self, *a, **k): return self
    def any(self, *a, **k): return self != 0
    def all(self, *a, **k): return self != 0
    def astype(self, t):
        from . import arr
        return arr.cast_scalar(self, arr.todtype(t))
    def is_integer(self): return floor(self) == self
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    # -- arithmetic
    def _lift(self, o):
        """SymNum, 'bad' float, SymComplex/None."""
        if isinstance(o, SymNum):
            return o
        if isinstance(o, SymBool):
            return o.num()
        if isinstance(o, (bool, np.bool_)):
            return mkint(int(o))
        if isinstance(o, (int, np.integer)):
            return mkint(int(o))
        if isinstance(o, (float, np.floating)):
            if math.isfinite(o):
                return mkreal(Fraction(float(o)), e=0.0)
            return float(o)
        if isinstance(o, Fraction):
            return mkreal(o)
        return None

    def _bin(self, o, f, name, swap=False):
        if isinstance(o, np.ndarray):
            from . import arr
            return arr.binop_scalar_array(name, self, o, swap)
        if isinstance(o, (complex, np.complexfloating, SymComplex)):
            a, b = tocomplex(self), tocomplex(o)
            return c_op(name, b, a) if swap else c_op(name, a, b)
        x = self._lift(o)
        if x is None:
            return NotImplemented
        return f(x, self) if swap else f(self, x)

    def __add__(self, o): return self._bin(o, r_add, np.add)
    def __radd__(self, o): return self._bin(o, r_add, np.add, True)
    def __sub__(self, o): return self._bin(o, r_sub, np.subtract)
    def __rsub__(self, o): return self._bin(o, r_sub, np.subtract, True)
    def __mul__(self, o): return self._bin(o, r_mul, np.multiply)
    def __rmul__(self, o): return self._bin(o, r_mul, np.multiply, True)
    def __truediv__(self, o): return self._bin(o, r_div, np.divide)
    def __rtruediv__(self, o): return self._bin(o, r_div, np.divide, True)
    def __floordiv__(self, o): return self._bin(o, r_floordiv, np.floor_divide)
    def __rfloordiv__(self, o): return self._bin(o, r_floordiv, np.floor_divide, True)
    def __mod__(self, o): return self._bin(o, r_mod, np.remainder)
    def __rmod__(self, o): return self._bin(o, r_mod, np.remainder, True)
    def __pow__(self, o, mod=None): return self._bin(o, r_pow, np.power)
    def __rpow__(self, o): return self._bin(o, r_pow, np.power, True)
    def __divmod__(self, o): return self // o, self % o
    def __rdivmod__(self, o): return o // self, o % self
    def __neg__(self): return self.__class__(p_scale(self.p, -1), self.m, self.e)
    def __pos__(self): return self
    def __abs__(self): return r_abs(self)
    def __and__(self, o):
        if self.isint and isinstance(o, (int, np.integer)) and o == 1:
            return self % 2
        if self.isint and isinstance(o, (int, np.integer)) and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        return NotImplemented
    __rand__ = __and__
    def __rshift__(self, o):
        return self // (2 ** int(o))
    def __lshift__(self, o):
        return self * (2 ** int(o))
    def __round__(self, n=None):
        if n is None:
            return rint(self, toint=True)
        return rint(self * 10 ** n) / 10 ** n
    def __floor__(self): return floor(self)
    def __ceil__(self): return ceil(self)
    def __trunc__(self): return trunc(self)

    def _cmp(self, o, name):
        if isinstance(o, np.ndarray):
            from . import arr
            return arr.binop_scalar_array(CMPU[name], self, o)
        if isinstance(o, (complex, np.complexfloating, SymComplex)):
            if name == "==":
                return c_eq(tocomplex(self), tocomplex(o))
            if name == "!=":
                return b_not(c_eq(tocomplex(self), tocomplex(o)))
            return NotImplemented
        x = self._lift(o)
        if x is None:
            if name == "==":
                return False
            if name == "!=":
                return True
            return NotImplemented
        return r_cmp(name, self, x)

    def __lt__(self, o): return self._cmp(o, "<")
    def __le__(self, o): return self._cmp(o, "<=")
    def __gt__(self, o): return self._cmp(o, ">")
    def __ge__(self, o): return self._cmp(o, ">=")
    def __eq__(self, o): return self._cmp(o, "==")
    def __ne__(self, o): return self._cmp(o, "!=")


CMPU = {"<": np.less, "<=": np.less_equal, ">": np.greater, ">=": np.greater_equal, "==": np.equal, "!=": np.not_equal}


class SymReal(SymNum):
    __slots__ = ()


class SymInt(SymNum):
    __slots__ = ()
    isint = True

    @property
    def numerator(self): return self
    @property
    def denominator(self): return 1


def mkreal(c, e=0.0):
    c = Fraction(c)
    return SymReal({ONE: c} if c else {}, abs(fl(c)), e)


def mkint(c):
    c = Fraction(int(c))
    return SymInt({ONE: c} if c else {}, abs(fl(c)), 0.0)


def var_num(v):
    m = math.inf
    if v.lo is not None and v.hi is not None:
        m = float(max(abs(v.lo), abs(v.hi)))
    return (SymInt if v.isint else SymReal)({(v.id,): Fraction(1)}, m, 0.0)


def lift(o):
    if isinstance(o, SymNum):
        return o
    if isinstance(o, SymBool):
        return o.num()
    if isinstance(o, (bool, np.bool_, int, np.integer)):
        return mkint(int(o))
    if isinstance(o, (float, np.floating)):
        if not math.isfinite(o):
            return float(o)
        return mkreal(Fraction(float(o)))
    if isinstance(o, Fraction):
        return mkreal(o)
    from .arr import SymArray
    if isinstance(o, np.ndarray) and o.shape == ():
        return lift(o.item() if isinstance(o, SymArray) else o[()])
    raise Unsupported("not a real number: %r" % (type(o),))


def _cls(a, b):
    return SymInt if a.isint and b.isint else SymReal


def _fin(x):
    return math.isfinite(x)


def _rnd(m, e, cls):
    """error after one rounding of a result with magnitude bound m and propagated error e"""
    if cls is SymInt:
        return e
    if not (_fin(m) and _fin(e)):
        return math.inf
    return e + U * (m + e) * 1.0000001


def r_add(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return bad_add(a, b)
    if not a.p:
        return b if (b.isint == _cls(a, b).isint) else SymReal(b.p, b.m, b.e)
    if not b.p:
        return a if (a.isint == _cls(a, b).isint) else SymReal(a.p, a.m, a.e)
    cls = _cls(a, b)
    m = a.m + b.m
    return cls(p_add(a.p, b.p), m, _rnd(m, a.e + b.e, cls))


def r_sub(a, b):
    if isinstance(b, float):
        return r_add(a, -b)
    return r_add(a, -b)


def bad_add(a, b):
    fa, fb = isinstance(a, float), isinstance(b, float)
    if fa and fb:
        return np.float64(a) + np.float64(b)
    return np.float64(a) if fa else np.float64(b)


def r_mul(a, b):
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, float) and isinstance(b, float):
            return np.float64(a) * np.float64(b)
        x, inf = (b, a) if isinstance(a, float) else (a, b)
        if math.isnan(inf):
            return np.float64(math.nan)
        if x > 0:
            return np.float64(inf)
        if x < 0:
            return np.float64(-inf)
        return np.float64(math.nan)
    cls = _cls(a, b)
    ca, cb = a.const(), b.const()
    # multiplication by 0 or a power of two is exact
    exact = cls is SymInt
    for c in (ca, cb):
        if c is not None and (c == 0 or (abs(c.numerator) & (abs(c.numerator) - 1) == 0 and c.denominator & (c.denominator - 1) == 0)):
            exact = True
    m = a.m * b.m if (a.m and b.m) else 0.0
    e = (a.e * b.m if a.e else 0.0) + (b.e * a.m if b.e else 0.0) + a.e * b.e
    if math.isnan(e):
        e = math.inf
    return cls(p_mul(a.p, b.p), m, e if exact else _rnd(m, e, cls))


def _frac_div(a, b):
    """a.p / b.p when it is a constant ratio, else None"""
    if len(a) != len(b) or not b:
        return None
    r = None
    for m, c in b.items():
        d = a.get(m)
        if d is None:
            return None
        q = d / c
        if r is None:
            r = q
        elif r != q:
            return None
    return r


def r_div(a, b):
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, float) and isinstance(b, float):
            return np.float64(a) / np.float64(b)
        if isinstance(b, float):
            return np.float64(math.nan) if math.isnan(b) else mkreal(0)
        if math.isnan(a):
            return np.float64(a)
        return np.float64(a) if b >= 0 else np.float64(-a)
    cb = b.const()
    if cb is not None:
        if cb == 0:
            return div_zero(a)
        m = a.m / abs(fl(cb))
        pw = cb.numerator in (1, -1) and cb.denominator & (cb.denominator - 1) == 0 or (
            cb.denominator == 1 and abs(cb.numerator) & (abs(cb.numerator) - 1) == 0)
        e = a.e / abs(fl(cb))
        if b.e:
            e = math.inf
        return SymReal(p_scale(a.p, 1 / cb), m, e if pw else _rnd(m, e, SymReal))
    z = b == 0
    if z is True or (z is not False and bool(z)):
        return div_zero(a)
    r = _frac_div(a.p, b.p)
    if r is not None:
        return SymReal({ONE: r} if r else {}, abs(fl(r)), math.inf)
    st = cur()
    if len(b.p) == 1:
        # cancel factors common to all terms, then divide by the rest one by one
        (m, k), = b.p.items()
        ap, rest = a.p, []
        for x in m:
            if ap and all(x in t for t in ap):
                ap = {t[:t.index(x)] + t[t.index(x) + 1:]: q for t, q in ap.items()}
            else:
                rest.append(x)
        if len(rest) < len(m) or len(m) > 1 or st.vars[m[0]].inv is not None:
            r = SymReal(p_canon(p_scale(ap, 1 / k)), math.inf, math.inf)
            for x in rest:
                j = st.vars[x].inv
                if j is not None:
                    r = SymReal(p_mul(r.p, {(j,): Fraction(1)}), math.inf, math.inf)
                else:
                    r = r_div(r, SymReal({(x,): Fraction(1)}, math.inf, math.inf))
            return r
    # scale b so that its lexicographically first coefficient is one
    lead = min(b.p)
    k = b.p[lead]
    bn = p_canon(p_scale(b.p, 1 / k))
    key = ("inv", frozenset(bn.items()))
    v = st.cache.get(key)
    if v is None:
        v = st.fresh("inv")
        v.ev = lambda env: 1.0 / pev(bn, env)
        v.recip = bn
        vs = p_vars(bn) | {v.id}
        v.defs.append(Con(v.z * p_z3(bn) == 1, vs))
        if len(bn) == 1:
            (x,), = bn.keys() if len(lead) == 1 else ((None,),)
            if x is not None and bn[(x,)] == 1 and st.vars[x].inv is None:
                v.inv, st.vars[x].inv, st.has_inv = x, v.id, True
        st.cache[key] = v
    return SymReal(p_mul(p_canon(p_scale(a.p, 1 / k)), {(v.id,): Fraction(1)}), math.inf, math.inf)


STRICT_DIV = False


def div_zero(a):
    """Division by zero with numpy semantics (warning, inf or nan)."""
    if STRICT_DIV:
        raise ZeroDivisionError("float division by zero")
    if a > 0:
        return np.float64(math.inf)
    if a < 0:
        return np.float64(-math.inf)
    return np.float64(math.nan)


def r_floordiv(a, b):
    q = floor(r_div(a, b))
    if isinstance(q, SymNum) and not (a.isint and b.isint):
        return SymReal(q.p, q.m, q.e)
    return q


def r_mod(a, b):
    if isinstance(b, float):
        raise Unsupported("mod inf")
    r = a - b * floor(r_div(a, b))
    if isinstance(r, SymNum) and b.const() is not None:
        r = _cls(a, b)(r.p, abs(fl(b.const())), math.inf if not (a.isint and b.isint) else 0.0)
    return r


def r_fmod(a, b):
    if isinstance(b, float):
        raise Unsupported("fmod inf")
    r = a - b * trunc(r_div(a, b))
    if isinstance(r, SymNum) and b.const() is not None:
        # the result has the sign of a: implied by trunc
        r = _cls(a, b)(r.p, abs(fl(b.const())), a.e)
    return r


def r_pow(a, b):
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(b, float) or not isinstance(a, float):
            raise Unsupported("power with inf")
        return np.float64(a) ** float(b)
    cb = b.const()
    if cb is None:
        ca = a.const()
        if b.isint:
            return r_pow(a, mkint(b.concretize()))
        if ca is not None and ca > 0:
            return r_exp(b * math.log(float(ca)))
        raise Unsupported("symbolic exponent")
    if cb.denominator == 1:
        n = int(cb)
        if n >= 0:
            r = (mkint(1) if a.isint and b.isint else mkreal(1))
            base = a
            k = n
            first = True
            while k:
                if k & 1:
                    r = base if first else r_mul(r, base)
                    first = False
                k >>= 1
                if k:
                    base = r_mul(base, base)
            if not b.isint and r.isint:
                r = SymReal(r.p, r.m, r.e)
            return r
        return r_div(mkreal(1), r_pow(a, mkint(-n)))
    if cb == Fraction(1, 2):
        return r_sqrt(a)
    if cb == Fraction(-1, 2):
        return r_div(mkreal(1), r_sqrt(a))
    f = Fraction(float(cb)).limit_denominator(64)
    if abs(float(f) - float(cb)) < 1e-15:
        if f.denominator == 2:
            n = f.numerator
            return r_pow(r_sqrt(a), mkint(n))
        root = r_root(a, f.denominator)
        return r_pow(root, mkint(f.numerator)) if f.numerator != 1 else root
    raise Unsupported("power %s" % cb)


def r_root(a, n):
    """n-th root of a >= 0; nan otherwise (numpy semantics)"""
    neg = a < 0
    if neg is True or (neg is not False and bool(neg)):
        return np.float64(math.nan)
    c = a.const()
    if c is not None:
        return mkreal(Fraction(float(c) ** (1.0 / n)), math.inf)
    st = cur()
    key = ("root", n, p_key(a.p))
    v = st.cache.get(key)
    if v is None:
        v = st.fresh("root", lo=0)
        v.ev = lambda env: max(0.0, pev(a.p, env)) ** (1.0 / n)
        f = v.z
        for _ in range(n - 1):
            f = f * v.z
        v.defs.append(Con(f == p_z3(a.p), p_vars(a.p) | {v.id}))
        st.cache[key] = v
    return SymReal({(v.id,): Fraction(1)}, a.m ** (1.0 / n) if _fin(a.m) else math.inf, math.inf)


def _perfect(c):
    n, d = c.numerator, c.denominator
    if n < 0:
        return None
    rn, rd = math.isqrt(n), math.isqrt(d)
    return Fraction(rn, rd) if rn * rn == n and rd * rd == d else None


def p_sqrt(p):
    """A polynomial whose square is p, or None."""
    if not 1 < len(p) <= 40:
        return None
    ids = sorted({x for m in p for x in m})
    if any(sum(len(m) for m in p) > 400 for _ in (0,)):
        return None

    def order(m):
        return (len(m),) + tuple(m.count(x) for x in ids)
    lm = max(p, key=order)
    k = _perfect(p[lm])
    if k is None or len(lm) % 2 or any(lm[i] != lm[i + 1] for i in range(0, len(lm), 2)):
        return None
    r = {lm[::2]: k}
    lead = lm[::2]
    rem = p_add(p, p_mul(r, r), -1)
    for _ in range(12):
        if not rem:
            return r
        m = max(rem, key=order)
        q = list(m)
        for x in lead:
            if x not in q:
                return None
            q.remove(x)
        t = {tuple(q): rem[m] / (2 * k)}
        if tuple(q) in r:
            return None
        # (r + t)^2 = r^2 + 2 r t + t^2
        rem = p_add(p_add(rem, p_scale(p_mul(r, t), 2), -1), p_mul(t, t), -1)
        r = p_add(r, t)
    return None


def r_sqrt(a, nonneg=False):
    if isinstance(a, float):
        return np.float64(math.sqrt(a)) if a > 0 else np.float64(math.nan)
    c = a.const()
    if c is not None:
        if c < 0:
            return np.float64(math.nan)
        q = _perfect(c)
        return mkreal(q) if q is not None else mkreal(Fraction(math.sqrt(float(c))), U * math.sqrt(float(c)))
    if not nonneg:
        neg = a < 0
        if neg is True or (neg is not False and bool(neg)):
            return np.float64(math.nan)
    st = cur()
    # perfect squares of a single monomial: sqrt(k v^2) = sqrt(k) |v|
    if len(a.p) == 1:
        (mm, k), = a.p.items()
        if len(mm) % 2 == 0 and all(mm[i] == mm[i + 1] for i in range(0, len(mm), 2)) and k > 0:
            q = _perfect(k)
            if q is not None:
                return r_abs(SymReal({mm[::2]: q}, math.sqrt(a.m) if _fin(a.m) else math.inf, math.inf))
    q = p_sqrt(a.p)
    if q is not None:
        return r_abs(SymReal(q, math.sqrt(a.m) if _fin(a.m) else math.inf, math.inf))
    key = ("sqrt", p_key(a.p))
    v = st.cache.get(key)
    if v is None:
        v = st.fresh("sqrt", lo=0)
        v.ev = lambda env: math.sqrt(max(0.0, pev(a.p, env)))
        v.defs.append(Con(v.z * v.z == p_z3(a.p), p_vars(a.p) | {v.id}))
        v.sq = a.p
        st.cache[key] = v
    return SymReal({(v.id,): Fraction(1)}, math.sqrt(a.m) if _fin(a.m) else math.inf, math.inf)


def r_abs(a):
    if isinstance(a, float):
        return abs(a)
    c = a.const()
    if c is not None:
        return a.__class__({ONE: abs(c)} if c else {}, a.m, a.e)
    # known sign of a single variable
    st = cur()
    if len(a.p) == 1:
        (mm, k), = a.p.items()
        if len(mm) == 1:
            v = st.vars[mm[0]]
            if v.lo is not None and v.lo >= 0:
                return a if k > 0 else -a
            if v.hi is not None and v.hi <= 0:
                return -a if k > 0 else a
    lead = min(a.p)
    p = a.p if a.p[lead] > 0 else p_scale(a.p, -1)
    if all(len(m) <= 1 for m in p) and st.pc:
        k = r_cmp(">=", SymReal(p, math.inf, math.inf), mkreal(0))
        k = k if isinstance(k, bool) else st.decided(k)
        if k is not None:
            return SymReal(p if k else p_scale(p, -1), a.m, a.e) if not a.isint else a.__class__(p if k else p_scale(p, -1), a.m, a.e)
    key = ("abs", p_key(p))
    v = st.cache.get(key)
    if v is None:
        v = st.fresh("abs", isint=a.isint, lo=0)
        v.ev = lambda env: abs(pev(p, env))
        t = p_z3(p, a.isint and p_int(p))
        vs = p_vars(p) | {v.id}
        v.defs.append(Con(z3.Or(z3.And(t >= 0, v.z == t), z3.And(t < 0, v.z == -t)), vs))
        v.sq = p_mul(p, p)
        st.cache[key] = v
    return a.__class__({(v.id,): Fraction(1)}, a.m, a.e)


def r_cmp(name, a, b):
    if isinstance(b, float):
        if math.isnan(b):
            return name == "!="
        big = b > 0
        return {"<": big, "<=": big, ">": not big, ">=": not big, "==": False, "!=": True}[name]
    if name in (">", ">="):
        return r_cmp("<" if name == ">" else "<=", b, a)
    d = p_add(a.p, b.p, -1)
    if name == "!=":
        return b_not(atom(d, "=="))
    # cheap bounds: |a|<=m
    return atom(d, name)


def _intpart(a, tag, cons):
    st = cur()
    key = (tag, p_key(a.p))
    v = st.cache.get(key)
    if v is None:
        v = st.fresh(tag, isint=True)
        v.ev = lambda env: float({"floor": math.floor, "trunc": math.trunc, "rint": round}[tag](pev(a.p, env)))
        t = p_z3(a.p)
        k = z3.ToReal(v.z)
        v.defs.append(Con(cons(t, k, v.z), p_vars(a.p) | {v.id}))
        st.cache[key] = v
        if _fin(a.m):
            v.defs.append(Con(z3.And(v.z <= int(a.m) + 1, v.z >= -int(a.m) - 1), frozenset((v.id,))))
    return SymInt({(v.id,): Fraction(1)}, a.m + 1, 0.0)


def floor(a):
    if isinstance(a, float):
        return a
    if a.isint:
        return a
    c = a.const()
    if c is not None:
        return mkint(math.floor(c))
    if p_int(a.p):
        return SymInt(a.p, a.m, 0.0)
    return _intpart(a, "floor", lambda t, k, z: z3.And(k <= t, t < k + 1))


def ceil(a):
    if isinstance(a, float):
        return a
    return -floor(-a)


def trunc(a):
    if isinstance(a, float):
        if math.isnan(a):
            raise ValueError("cannot convert float NaN to integer")
        raise OverflowError("cannot convert float infinity to integer")
    if a.isint:
        return a
    c = a.const()
    if c is not None:
        return mkint(math.trunc(c))
    if p_int(a.p):
        return SymInt(a.p, a.m, 0.0)
    return _intpart(a, "trunc", lambda t, k, z: z3.Or(z3.And(t >= 0, k <= t, t < k + 1), z3.And(t < 0, k >= t, t > k - 1)))


def rint(a, toint=False):
    if isinstance(a, float):
        return a
    c = a.const()
    if c is not None:
        return mkint(round(c)) if toint else mkreal(round(c))
    if a.isint or p_int(a.p):
        return SymInt(a.p, a.m, 0.0) if toint else SymReal(a.p, a.m, 0.0)
    r = _intpart(a, "rint", lambda t, k, z: z3.And(
        2 * (t - k) <= 1, 2 * (k - t) <= 1, z3.Implies(z3.Or(2 * (t - k) == 1, 2 * (k - t) == 1), z % 2 == 0)))
    return r if toint else SymReal(r.p, r.m, 0.0)


def r_sign(a):
    if isinstance(a, float):
        return np.sign(a)
    c = a.const()
    one, zero = mkint(1), mkint(0)
    if c is not None:
        r = one if c > 0 else -one if c < 0 else zero
    else:
        r = ite(a > 0, one, ite(a < 0, -one, zero))
    return r if a.isint else SymReal(r.p, r.m, 0.0)


def ite(c, a, b):
    """Conditional value; merges instead of branching."""
    c = tobool(c)
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, SymBool) or isinstance(b, SymBool) or (isbool(a) and isbool(b)):
        return b_ite(c, a, b)
    if any(isinstance(x, (SymComplex, complex, np.complexfloating)) for x in (a, b)):
        a, b = tocomplex(a), tocomplex(b)
        return mkcomplex(ite(c, a.re, b.re), ite(c, a.im, b.im))
    la, lb = lift(a), lift(b)
    if isinstance(la, float) or isinstance(lb, float):
        return a if bool(c) else b      # non-finite: take a branch instead
    cls = _cls(la, lb)
    if la.p == lb.p:
        return cls(la.p, max(la.m, lb.m), max(la.e, lb.e))
    st = cur()
    key = ("ite", c.e.get_id(), p_key(la.p), p_key(lb.p))
    v = st.cache.get(key)
    if v is None:
        k = st.decided(c)
        if k is not None:
            return a if k else b
        v = st.fresh("ite", isint=cls is SymInt)

        def ev(env, pa=la.p, pb=lb.p, e=c.e, st=st):
            r = zev(e, env, {x.name: x.id for x in st.vars if x.id in cvs}, {})
            return None if r is None else pev(pa if r else pb, env)
        cvs = c.vs
        v.ev = ev
        ii = cls is SymInt and p_int(la.p) and p_int(lb.p)
        vs = p_vars(la.p) | p_vars(lb.p) | c.vs | {v.id}
        vz = v.z if ii or cls is SymReal else z3.ToReal(v.z)
        v.defs.append(Con(z3.Or(z3.And(c.e, vz == p_z3(la.p, ii)), z3.And(c.n, vz == p_z3(lb.p, ii))), vs))
        st.cache[key] = (v, c)
    else:
        v = v[0]
    return cls({(v.id,): Fraction(1)}, max(la.m, lb.m), max(la.e, lb.e))


def r_max(a, b):
    la, lb = lift(a), lift(b)
    if isinstance(la, float) or isinstance(lb, float):
        for x, y in ((la, b), (lb, a)):
            if isinstance(x, float):
                if math.isnan(x):
                    return np.float64(x)
                return np.float64(x) if x > 0 else y
    return ite(la >= lb, a, b)


def r_min(a, b):
    la, lb = lift(a), lift(b)
    if isinstance(la, float) or isinstance(lb, float):
        for x, y in ((la, b), (lb, a)):
            if isinstance(x, float):
                if math.isnan(x):
                    return np.float64(x)
                return np.float64(x) if x < 0 else y
    return ite(la <= lb, a, b)


def r_exp(a):
    """exp of a real: positive, strictly increasing, 1 at 0."""
    la = lift(a)
    if isinstance(la, float):
        return np.float64(math.exp(la)) if la < 0 or math.isnan(la) else np.float64(math.inf)
    c = la.const()
    if c is not None:
        return mkreal(Fraction(math.exp(float(c))), 4 * U * math.exp(float(c)))
    st = cur()
    key = ("exp", p_key(la.p))
    v = st.cache.get(key)
    if v is None:
        v = st.fresh("exp", lo=0)
        v.ev = lambda env: math.exp(pev(la.p, env))
        t = p_z3(la.p)
        vs = p_vars(la.p) | {v.id}
        v.defs.append(Con(z3.And(v.z > 0, z3.Or(z3.And(t < 0, v.z < 1), z3.And(t == 0, v.z == 1), z3.And(t > 0, v.z > 1))), vs))
        for (p2, v2) in st.exps:
            t2 = p_z3(p2)
            v.defs.append(Con(z3.Or(z3.And(t < t2, v.z < v2.z), z3.And(t == t2, v.z == v2.z), z3.And(t > t2, v.z > v2.z)),
                              vs | p_vars(p2) | {v2.id}))
        st.exps.append((la.p, v))
        st.cache[key] = v
    return SymReal({(v.id,): Fraction(1)}, math.exp(la.m) if la.m < 700 else math.inf, math.inf)


def r_uf(name, *args, lo=None, hi=None):
    """Uninterpreted real function (functional consistency by identical normal forms only)."""
    st = cur()
    key = ("uf", name) + tuple(p_key(lift(a).p) for a in args)
    v = st.cache.get(key)
    if v is None:
        v = st.fresh("uf_" + name, lo=lo, hi=hi)
        if name == "angle":
            v.ev = lambda env, p=[lift(a).p for a in args]: math.atan2(pev(p[1], env), pev(p[0], env))
        # keep congruence with earlier applications
        for (k2, ps2, v2) in st.notes.setdefault("uf", []):
            if k2 == name and len(ps2) == len(args):
                eqs, vs = [], frozenset((v.id, v2.id))
                for a, p2 in zip(args, ps2):
                    d = p_add(lift(a).p, p2, -1)
                    eqs.append(p_z3(d) == 0)
                    vs = vs | p_vars(d)
                v.defs.append(Con(z3.Implies(z3.And(eqs), v.z == v2.z), vs))
        st.notes["uf"].append((name, [lift(a).p for a in args], v))
        st.cache[key] = v
    m = float(max(abs(lo), abs(hi))) if lo is not None and hi is not None else math.inf
    return SymReal({(v.id,): Fraction(1)}, m, math.inf)


# ----------------------------------------------------------------------------------------------------------------
# complex numbers


def comp(x):
    """component: SymNum or python float"""
    if isinstance(x, SymNum):
        return x
    if isinstance(x, SymBool):
        return x.num()
    return float(x)


class SymComplex:
    __array_ufunc__ = None
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re, self.im = re, im

    @property
    def real(self): return toreal(self.re)
    @property
    def imag(self): return toreal(self.im)
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    @property
    def size(self): return 1
    @property
    def dtype(self): return np.dtype("complex128")
    @property
    def T(self): return self
    def item(self): return self
    def copy(self): return self
    def sum(self, *a, **k): return self
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def conjugate(self): return mkcomplex(self.re, -self.im)
    conj = conjugate

    def astype(self, t):
        from . import arr
        return arr.cast_scalar(self, arr.todtype(t))

    def __repr__(self): return "<symcomplex>"
    def __format__(self, spec): return "<symcomplex>"
    def __hash__(self): raise Unsupported("hash of a symbolic complex")
    def __bool__(self): return bool(self != 0)
    def __complex__(self):
        return complex(float(self.re), float(self.im))
    def __float__(self):
        raise TypeError("can't convert complex to float")
    __int__ = __float__

    def _bin(self, o, name, swap=False):
        if isinstance(o, np.ndarray):
            from . import arr
            return arr.binop_scalar_array(name, self, o, swap)
        x = tocomplex(o, True)
        if x is None:
            return NotImplemented
        return c_op(name, x, self) if swap else c_op(name, self, x)

    def __add__(self, o): return self._bin(o, np.add)
    def __radd__(self, o): return self._bin(o, np.add, True)
    def __sub__(self, o): return self._bin(o, np.subtract)
    def __rsub__(self, o): return self._bin(o, np.subtract, True)
    def __mul__(self, o): return self._bin(o, np.multiply)
    def __rmul__(self, o): return self._bin(o, np.multiply, True)
    def __truediv__(self, o): return self._bin(o, np.divide)
    def __rtruediv__(self, o): return self._bin(o, np.divide, True)
    def __pow__(self, o):
        if isinstance(o, np.ndarray):
            from . import arr
            return arr.binop_scalar_array(np.power, self, o)
        return c_pow(self, o)
    def __neg__(self): return mkcomplex(-self.re, -self.im)
    def __pos__(self): return self
    def __abs__(self): return c_abs(self)
    def __eq__(self, o):
        if isinstance(o, np.ndarray):
            from . import arr
            return arr.binop_scalar_array(np.equal, self, o)
        x = tocomplex(o, True)
        return False if x is None else c_eq(self, x)
    def __ne__(self, o):
        if isinstance(o, np.ndarray):
            from . import arr
            return arr.binop_scalar_array(np.not_equal, self, o)
        return b_not(self == o)


def toreal(x):
    if isinstance(x, SymInt):
        return SymReal(x.p, x.m, x.e)
    if isinstance(x, SymNum):
        return x
    return np.float64(x)


def mkcomplex(re, im):
    if not isinstance(re, SymNum) and not isinstance(im, SymNum):
        return np.complex128(complex(float(re), float(im)))
    return SymComplex(comp(re), comp(im))


class _C:
    __slots__ = ("re", "im")


def tocomplex(o, soft=False):
    if isinstance(o, SymComplex):
        return o
    if isinstance(o, SymNum):
        return SymComplex(o, 0.0)
    if isinstance(o, SymBool):
        return SymComplex(o.num(), 0.0)
    if isinstance(o, (bool, int, float, np.integer, np.floating, np.bool_)):
        return SymComplex(float(o), 0.0)
    if isinstance(o, Fraction):
        return SymComplex(mkreal(o), 0.0)
    if isinstance(o, (complex, np.complexfloating)):
        return SymComplex(float(o.real), float(o.imag))
    if soft:
        return None
    raise Unsupported("not a complex number: %r" % (type(o),))


def _z(x):
    """exact zero component"""
    return (not isinstance(x, SymNum) and x == 0.0) or (isinstance(x, SymNum) and not x.p)


def _add(a, b):
    if _z(a):
        return b
    if _z(b):
        return a
    return a + b


def _mul(a, b):
    if _z(a) or _z(b):
        bad = [x for x in (a, b) if not isinstance(x, SymNum) and not math.isfinite(x)]
        if not bad:
            return 0.0
    return a * b


def c_op(name, a, b):
    if name is np.add:
        return mkcomplex(_add(a.re, b.re), _add(a.im, b.im))
    if name is np.subtract:
        return mkcomplex(_add(a.re, -b.re), _add(a.im, -b.im))
    if name is np.multiply:
        return mkcomplex(_add(_mul(a.re, b.re), -_mul(a.im, b.im)), _add(_mul(a.re, b.im), _mul(a.im, b.re)))
    if name is np.divide:
        return c_div(a, b)
    if name is np.power:
        return c_pow(a, b)
    if name is np.equal:
        return c_eq(a, b)
    if name is np.not_equal:
        return b_not(c_eq(a, b))
    raise Unsupported("complex operation %s" % name)


def c_div(a, b):
    if _z(b.im):
        d = b.re
        if isinstance(d, SymNum):
            return mkcomplex(comp(lift(a.re) / d), comp(lift(a.im) / d))
        if d == 0:
            return np.complex128(complex(math.nan, math.nan))
        return mkcomplex(a.re / d if not _z(a.re) else 0.0, a.im / d if not _z(a.im) else 0.0)
    if not isinstance(b.re, SymNum) and not isinstance(b.im, SymNum):
        w = 1.0 / complex(b.re, b.im)
        return c_op(np.multiply, a, SymComplex(w.real, w.imag))
    n = _add(_mul(b.re, b.re), _mul(b.im, b.im))
    num = c_op(np.multiply, a, SymComplex(b.re, -b.im))
    num = tocomplex(num)
    return mkcomplex(comp(lift(num.re) / n), comp(lift(num.im) / n))


def c_pow(a, b):
    if isinstance(b, SymComplex):
        if _z(b.im):
            b = b.re
        else:
            raise Unsupported("complex exponent")
    if isinstance(b, SymNum):
        c = b.const()
        if c is None:
            if b.isint:
                c = Fraction(b.concretize())
            else:
                raise Unsupported("symbolic exponent")
        b = c
    b = Fraction(b)
    if b.denominator != 1:
        raise Unsupported("complex fractional power")
    n = int(b)
    a = tocomplex(a)
    if n < 0:
        return c_div(SymComplex(1.0, 0.0), tocomplex(c_pow(a, -n)))
    r = SymComplex(1.0, 0.0)
    for _ in range(n):
        r = tocomplex(c_op(np.multiply, r, a))
    return mkcomplex(r.re, r.im)


def c_eq(a, b):
    def eq(x, y):
        r = x == y
        return r
    return b_and(eq(a.re, b.re), eq(a.im, b.im))


def c_abs(a):
    a = tocomplex(a)
    if _z(a.im):
        return toreal(comp(abs(a.re)))
    if _z(a.re):
        return toreal(comp(abs(a.im)))
    for x in (a.re, a.im):
        if not isinstance(x, SymNum) and not math.isfinite(x):
            return np.float64(math.nan if math.isnan(x) else math.inf)
    s = _add(_mul(a.re, a.re), _mul(a.im, a.im))
    if not isinstance(s, SymNum):
        return np.float64(math.sqrt(s))
    return r_sqrt(s, nonneg=True)


def c_angle(a):
    """Principal argument: an uninterpreted function of both components in [-pi, pi]; exact on real and imaginary axes."""
    a = tocomplex(a)
    if not isinstance(a.re, SymNum) and not isinstance(a.im, SymNum):
        return np.float64(math.atan2(a.im, a.re))
    re, im = lift(a.re), lift(a.im)
    v = r_uf("angle", re, im, lo=-PI, hi=PI)
    st = cur()
    vid = next(iter(v.p))[0]
    var = st.vars[vid]
    key = ("angleax", vid)
    if key not in st.cache:
        st.cache[key] = True
        zr, zi = p_z3(re.p), p_z3(im.p)
        vs = p_vars(re.p) | p_vars(im.p) | {vid}
        pi = zval(PI)
        var.defs.append(Con(z3.And(
            z3.Implies(zi > 0, z3.And(var.z > 0, var.z < pi)),
            z3.Implies(zi < 0, z3.And(var.z < 0, var.z > -pi)),
            z3.Implies(z3.And(zi == 0, zr > 0), var.z == 0),
            z3.Implies(z3.And(zi == 0, zr < 0), z3.Or(var.z == pi, var.z == -pi)),
            z3.Implies(zr > 0, z3.And(var.z < pi / 2, var.z > -pi / 2)),
            z3.Implies(z3.And(zr < 0, zi > 0), var.z > pi / 2),
            z3.Implies(z3.And(zr < 0, zi < 0), var.z < -pi / 2),
        ), vs))
    return v


def snap(q):
    """Coefficient of an angle in half turns: snap to a small rational when within rounding of one."""
    for d in (1, 64, 4096):
        f = q.limit_denominator(d)
        if abs(f - q) <= abs(q) * Fraction(1, 2 ** 49):
            return f
    return q


CIS_MAX = 96


def _cis_free(m, q):
    """(c, s) for cos/sin(pi * q * m) with a factor too fine to relate to others: only c*c + s*s = 1 is known."""
    st = cur()
    key = ("cisf", m, q)
    r = st.cache.get(key)
    if r is None:
        c, s = st.fresh("cos", lo=-1, hi=1), st.fresh("sin", lo=-1, hi=1)
        c.ev = lambda env: math.cos(math.pi * float(q) * pev({m: 1}, env))
        s.ev = lambda env: math.sin(math.pi * float(q) * pev({m: 1}, env))
        con = Con(c.z * c.z + s.z * s.z == 1, frozenset((c.id, s.id)))
        c.defs.append(con)
        s.defs.append(con)
        s.sq = {ONE: Fraction(1), (c.id, c.id): Fraction(-1)}
        r = st.cache[key] = (c, s)
    return r


def _cis_basis(atomkey, d):
    """(c, s) solver variables for cos/sin(pi * atom / d)."""
    st = cur()
    tab = st.cis.setdefault(atomkey, {})
    if d in tab:
        return tab[d]
    c = st.fresh("cos", lo=-1, hi=1)
    s = st.fresh("sin", lo=-1, hi=1)
    c.ev = lambda env: math.cos(math.pi * pev({atomkey: 1}, env) / d)
    s.ev = lambda env: math.sin(math.pi * pev({atomkey: 1}, env) / d)
    con = Con(c.z * c.z + s.z * s.z == 1, frozenset((c.id, s.id)))
    c.defs.append(con)
    s.defs.append(con)
    s.sq = {ONE: Fraction(1), (c.id, c.id): Fraction(-1)}
    # quadrant axioms when the atom is one bounded variable
    if len(atomkey) == 1:
        v = st.vars[atomkey[0]]
        if v.lo is not None and v.hi is not None and v.lo >= -d and v.hi <= d and not v.isint:
            z, vs = v.z, frozenset((v.id, c.id, s.id))
            ax = Con(z3.And(
                z3.Implies(z > 0, s.z >= 0), z3.Implies(z < 0, s.z <= 0), z3.Implies(z == 0, c.z == 1),
                z3.Implies(z3.And(z > 0, z < d), s.z > 0), z3.Implies(z3.And(z < 0, z > -d), s.z < 0),
                z3.Implies(z3.And(2 * z < d, 2 * z > -d), c.z > 0),
                z3.Implies(z3.Or(2 * z > d, 2 * z < -d), c.z < 0),
                z3.Implies(z3.Or(2 * z == d, 2 * z == -d), c.z == 0),
                z3.Implies(z3.Or(z == d, z == -d), c.z == -1)), vs)
            st.notes.setdefault("quad", []).append(ax)
            c.links = s.links = ()
            if st.notes.get("use_quadrants"):
                c.defs.append(ax)
                s.defs.append(ax)
    tab[d] = (c, s)
    for d2, (c2, s2) in list(tab.items()):
        if d2 != d:
            L = d * d2 // math.gcd(d, d2)
            if L > CIS_MAX:
                continue
            if L == d:
                a = _cis_pow(c, s, d // d2)
                link = Con(z3.And(p_z3(a[0]) == c2.z, p_z3(a[1]) == s2.z), frozenset((c.id, s.id, c2.id, s2.id)))
            elif L == d2:
                a = _cis_pow(c2, s2, d2 // d)
                link = Con(z3.And(p_z3(a[0]) == c.z, p_z3(a[1]) == s.z), frozenset((c.id, s.id, c2.id, s2.id)))
            else:
                _cis_basis(atomkey, L)
                continue
            for x in (c, s, c2, s2):
                x.defs.append(link)
    return c, s


def _cis_pow(c, s, n):
    st = cur()
    key = ("cisp", c.id, n)
    r = st.cache.get(key)
    if r is not None:
        return r
    rc, rs = {ONE: Fraction(1)}, {}
    pc, ps = {(c.id,): Fraction(1)}, {(s.id,): Fraction(1)}
    for _ in range(abs(n)):
        rc, rs = p_add(p_mul(rc, pc), p_mul(rs, ps), -1), p_add(p_mul(rc, ps), p_mul(rs, pc))
    if n < 0:
        rs = p_scale(rs, -1)
    st.cache[key] = (rc, rs)
    return rc, rs


def cis(p):
    """exp(i*pi*p) for a polynomial p (half turns)."""
    st = cur()
    key = ("cis", p_key(p))
    r = st.cache.get(key)
    if r is not None:
        return r
    rc, rs = {ONE: Fraction(1)}, {}

    def mul(c2, s2):
        nonlocal rc, rs
        rc, rs = p_add(p_mul(rc, c2), p_mul(rs, s2), -1), p_add(p_mul(rc, s2), p_mul(rs, c2))

    c0 = Fraction(0)
    for m in sorted(p):
        q = snap(p[m])
        if m == ONE:
            c0 = q
            continue
        if all(st.vars[i].isint for i in m) and q.denominator == 1:
            if q % 2 == 0:
                continue
            # (-1)^k
            sg = st.cache.get(("par", m))
            if sg is None:
                sg = st.fresh("par", lo=-1, hi=1)
                sg.ev = lambda env, m=m: -1.0 if pev({m: 1}, env) % 2 else 1.0
                t = p_z3({m: Fraction(1)}, True)
                sg.defs.append(Con(z3.Or(z3.And(t % 2 == 0, sg.z == 1), z3.And(t % 2 != 0, sg.z == -1)), p_vars({m: 1}) | {sg.id}))
                sg.sq = {ONE: Fraction(1)}
                st.cache[("par", m)] = sg
            mul({(sg.id,): Fraction(1)}, {})
            continue
        if max(abs(q.numerator), q.denominator) > CIS_MAX:
            c, s = _cis_free(m, abs(q))
            mul(*_cis_pow(c, s, 1 if q > 0 else -1))
            continue
        c, s = _cis_basis(m, q.denominator)
        mul(*_cis_pow(c, s, q.numerator))
    if c0:
        c0 = c0 % 2
        quad = {Fraction(0): (1, 0), Fraction(1, 2): (0, 1), Fraction(1): (-1, 0), Fraction(3, 2): (0, -1)}.get(c0)
        if quad:
            a, b = Fraction(quad[0]), Fraction(quad[1])
        else:
            a, b = Fraction(math.cos(math.pi * float(c0))), Fraction(math.sin(math.pi * float(c0)))
        mul({ONE: a} if a else {}, {ONE: b} if b else {})
    # rounding of a library exp(i x): a few units in the last place of x and of the result
    r = (SymReal(rc, 1.0, math.inf), SymReal(rs, 1.0, math.inf))
    st.cache[key] = r
    return r


def r_cos(a):
    return cis(p_scale(a.p, 1 / PI))[0]


def r_sin(a):
    return cis(p_scale(a.p, 1 / PI))[1]


def c_exp(a):
    a = tocomplex(a)
    if isinstance(a.im, SymNum):
        c, s = cis(p_scale(a.im.p, 1 / PI))
    else:
        c, s = math.cos(a.im), math.sin(a.im)
    if _z(a.re):
        return mkcomplex(c, s)
    k = r_exp(a.re) if isinstance(a.re, SymNum) else math.exp(a.re)
    return mkcomplex(_mul(k, c), _mul(k, s))
