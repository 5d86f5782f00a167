"""Log under concurrent use: every interleaving of the operations of two or three threads behaves like some sequential order."""
import itertools
import sys
import threading
import types

from checks.loglib import STD, Sink, world

BOUNDS = ("two threads with one or two operations each (and three threads with one each), any thread first, up to 2 preemptions (3 in the thorough tier for two threads with up to three operations) at symbolic steps, where a step is a source line of commons/log.py; "
          "custom levels of symbolic number from 0 to 60")
ASSUMPTIONS = ["loguru behaves as documented for add, remove, level and log (a model in symbolic runs, the real one in replays), one call of loguru is atomic", "threads switch at source lines of commons/log.py and in locks"]


class Stop(BaseException):
    pass


class Sched:
    """runs threads one at a time and switches between them at steps chosen by the harness"""

    def __init__(self, c, cuts):
        self.c, self.cuts, self.step = c, list(cuts), 0
        self.sem, self.alive, self.blocked, self.err = [], [], [], []
        self.cur, self.main, self.ids, self.dead = 0, threading.Semaphore(0), {}, False
        self.deadlock = False

    def me(self):
        return self.ids.get(threading.get_ident())

    def runnable(self, but):
        n = len(self.alive)
        return [(but + k) % n for k in range(1, n) if self.alive[(but + k) % n] and not self.blocked[(but + k) % n]]

    def switch(self, k):
        m = self.me()
        self.cur = k
        self.sem[k].release()
        self.sem[m].acquire()
        if self.dead:
            raise Stop()

    def point(self):
        m = self.me()
        if m is None or self.dead:
            return
        self.step += 1
        r = self.runnable(m)
        if not r:
            return
        # the cuts are increasing, so only the next one can be at this step
        if self.cuts and bool(self.cuts[0] == self.step):
            self.cuts.pop(0)
            self.switch(r[0])

    def tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.endswith("commons/log.py"):
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == "line":
            self.point()
        return self.line

    def run(self, fns, first):
        n = len(fns)
        self.alive, self.blocked, self.err = [True] * n, [False] * n, [None] * n
        self.sem = [threading.Semaphore(0) for _ in fns]

        def body(k):
            self.ids[threading.get_ident()] = k
            self.sem[k].acquire()
            try:
                if self.dead:
                    raise Stop()
                sys.settrace(self.tracer)
                try:
                    fns[k]()
                finally:
                    sys.settrace(None)
            except BaseException as e:
                self.err[k] = e
            self.alive[k] = False
            bad = self.err[k] is not None and not isinstance(self.err[k], Exception)
            r = self.runnable(k)
            if bad or self.dead or not r:
                if any(self.alive) and not bad and not self.dead:
                    self.deadlock = True
                self.main.release()
            else:
                self.cur = r[0]
                self.sem[r[0]].release()
        ts = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(n)]
        for t in ts:
            t.start()
        self.cur = first
        self.sem[first].release()
        try:
            self.main.acquire()
        finally:
            self.dead = True
            for s in self.sem:
                s.release()
            for t in ts:
                t.join(5)
        for e in self.err:
            if e is not None and not isinstance(e, (Exception, Stop)):
                raise e

    def stuck(self):
        self.deadlock = True
        self.main.release()
        raise Stop()


def locks(sched):
    class Lock:
        reentrant = False

        def __init__(self): self.owner, self.n = None, 0

        def acquire(self, blocking=True, timeout=-1):
            m = sched[0].me() if sched[0] else None
            m = "main" if m is None else m
            while self.owner is not None and not (self.reentrant and self.owner == m):
                if not blocking or timeout >= 0:
                    return False
                if m == "main" or not sched[0]:
                    raise RuntimeError("lock held")
                s = sched[0]
                s.blocked[m] = self
                r = s.runnable(m)
                if not r:
                    s.stuck()
                s.switch(r[0])
            self.owner, self.n = m, self.n + 1
            return True

        def release(self):
            m = sched[0].me() if sched[0] else None
            m = "main" if m is None else m
            if self.owner is None or (self.reentrant and self.owner != m):
                raise RuntimeError("release of a lock that is not held")
            self.n -= 1
            if not self.n:
                self.owner = None
                if sched[0]:
                    for k, b in enumerate(sched[0].blocked):
                        if b is self:
                            sched[0].blocked[k] = False

        def __enter__(self):
            self.acquire()
            return self

        def __exit__(self, *a): self.release()
        def locked(self): return self.owner is not None

    class RLock(Lock):
        reentrant = True
    m = types.ModuleType("threading")
    m.__dict__.update({k: v for k, v in threading.__dict__.items() if not k.startswith("__")})
    m.RLock, m.Lock = RLock, Lock
    return m


def patch(c, L, m):
    """locks of the module become locks of the scheduler"""
    mod = sys.modules[L.__module__] if not c.symbolic else c.module("diamondback.commons.log")
    kinds = {type(threading.RLock()): m.RLock, type(threading.Lock()): m.Lock}
    for o in (mod, L):
        for k, v in list(vars(o).items()):
            if type(v) in kinds:
                setattr(o, k, kinds[type(v)]())
            elif v is threading.RLock:
                setattr(o, k, m.RLock)
            elif v is threading.Lock:
                setattr(o, k, m.Lock)
            elif v is threading:
                setattr(o, k, m)


def orders(progs):
    """all sequential orders of the operations"""
    tags = [k for k, p in enumerate(progs) for _ in p]
    out = []
    for o in sorted(set(itertools.permutations(tags))):
        pos = [0] * len(progs)
        seq = []
        for k in o:
            seq.append(progs[k][pos[k]] + ("%d.%d" % (k, pos[k]),))
            pos[k] += 1
        out.append(seq)
    return out


def concurrent(c, progs, before=(), cuts=2, deep=False):
    """operations of several threads"""
    sched = [None]
    m = locks(sched)
    with world(c, threading=None) as (logger, L, out, err):
        patch(c, L, m)
        a, b = c.int("alpha", 0, 60), c.int("beta", 0, 60)
        logger.level("ALPHA", no=a if c.symbolic else int(a))
        logger.level("BETA", no=b if c.symbolic else int(b))
        nos = dict(STD, ALPHA=a, BETA=b)
        sinks = {"A": Sink("A"), "B": Sink("B"), "stdout": out}
        foreign = Sink("foreign")
        logger.add(foreign, level=0)
        level, stream, used = 20, None, False

        def perform(op, arg, tag):
            if op == "write":
                L.write(arg, "entry-%s-end" % tag)
            elif op == "level":
                L.level(arg)
            elif op == "bad":
                try:
                    L.level("Nope")
                except ValueError:
                    pass
            else:
                L.stream(sinks[arg])
        for op, arg in before:
            perform(op, arg, "before")
            if op == "level":
                level = nos[arg.upper()]
            if op == "stream":
                stream = arg
        first = c.choice("first", len(progs))
        ps = [c.int("cut%d" % k, 0, 100) for k in range(cuts)]
        for p, q in zip(ps, ps[1:]):
            c.assume(p < q) if c.symbolic else c.assume(p < q)
        s = sched[0] = Sched(c, ps)

        def thread(k):
            def body():
                for j, (op, arg) in enumerate(progs[k]):
                    perform(op, arg, "%d.%d" % (k, j))
            return body
        s.run([thread(k) for k in range(len(progs))], first)
        sched[0] = None
        c.check(not s.deadlock, "no deadlock")
        for e in s.err:
            c.check(e is None, "no exception in a thread")
        seen = {n: [t.split("entry-")[1].split("-end")[0] for t in x.text if "entry-" in t and "before" not in t] for n, x in sinks.items()}
        fseen = [t.split("entry-")[1].split("-end")[0] for t in foreign.text if "entry-" in t and "before" not in t]
        used = any(op in ("write", "stream") for p in progs for op, _ in p) or any(op in ("write", "stream") for op, _ in before)
        logger.log("CRITICAL", "direct")
        final = {n: x.count("direct") for n, x in sinks.items()}
        c.check(foreign.count("direct") == 1, "handlers of others stay")
        c.check(err.count("direct") == (0 if used else 1), "the initial default handler is removed once Log is used")
        # some sequential order explains what was written
        alts = []
        for seq in orders(progs):
            lv, st = level, stream
            want, fwant, conds = {n: [] for n in sinks}, [], []
            for op, arg, tag in seq:
                if op == "level":
                    lv = nos[arg.upper()]
                elif op == "stream":
                    st = arg
                elif op == "write":
                    on = nos[arg.upper()] >= lv
                    there = any(tag in v for v in seen.values())
                    conds.append(on if there else c.no(on))
                    if there:
                        want[st or "stdout"].append(tag)
                        fwant.append(tag)
            if want == seen and fwant == fseen and all(final[n] == (1 if used and n == (st or "stdout") else 0) for n in sinks):
                alts.append(c.all(conds))
        c.check(c.any(alts), "as in some sequential order")


W, LV, ST = (lambda a: ("write", a)), (lambda a: ("level", a)), (lambda a: ("stream", a))
SETS = [
    ("write, write", [[W("Alpha")], [W("Beta")]], []),
    ("write, write after a stream", [[W("Alpha")], [W("Beta")]], [ST("A")]),
    ("stream, write", [[ST("A")], [W("Alpha")]], []),
    ("stream, stream", [[ST("A")], [ST("B")]], []),
    ("stream, stream after a stream", [[ST("A")], [ST("B")]], [ST("stdout")]),
    ("level, write", [[LV("Alpha")], [W("Beta")]], []),
    ("level, write after a stream", [[LV("Beta")], [W("Alpha")]], [ST("A"), LV("Error")]),
    ("stream write, stream write", [[ST("A"), W("Alpha")], [ST("B"), W("Beta")]], []),
    ("stream write, write write", [[ST("A"), W("Alpha")], [W("Beta"), W("Error")]], [ST("B")]),
    ("level write, level write", [[LV("Alpha"), W("Beta")], [LV("Beta"), W("Alpha")]], [ST("A")]),
    ("bad level, write", [[("bad", None), W("Alpha")], [W("Beta")]], []),
    ("write, level write", [[W("Alpha")], [LV("Beta"), W("Beta")]], [ST("A")]),
    ("write, stream level", [[W("Alpha")], [ST("B"), LV("Beta")]], [ST("A")]),
    ("three threads", [[ST("A")], [W("Alpha")], [ST("B")]], []),
]
DEEP = [
    ("three writers", [[W("Alpha")], [W("Beta")], [LV("Alpha")]], []),
    ("three programs", [[ST("A"), W("Alpha")], [W("Beta")], [ST("B"), LV("Beta")]], []),
    ("write stream, write stream", [[W("Alpha"), ST("A")], [W("Beta"), ST("B")]], []),
    ("level stream, write write", [[LV("Alpha"), ST("A")], [W("Beta"), W("Alpha")]], []),
    ("stream three times", [[ST("A"), ST("B"), W("Alpha")], [W("Beta"), ST("stdout")]], []),
]


def run(c, name, cuts):
    progs, before = [(p, b) for n, p, b in SETS + DEEP if n == name][0]
    concurrent(c, progs, before, cuts)


def instances(tier):
    out = []
    for name, progs, before in SETS + (DEEP if tier == "thorough" else []):
        for k in (2, 3) if tier == "thorough" and sum(map(len, progs)) <= 3 and len(progs) == 2 else (2,):
            out.append(dict(name="%s, %d preemptions" % (name, k), fn="run", kw=dict(name=name, cuts=k), budget=300, max_paths=20000, witnesses=12))
    return out
