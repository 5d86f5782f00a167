"""Log: entries at or above the level reach the last stream, once; handlers of others stay."""
import sys

from checks.loglib import STD, Sink, world

BOUNDS = ("histories of 3 operations (4 in the thorough tier) drawn from 6 level, 6 stream, 5 write and 3 foreign handler operations, with two custom levels of symbolic number from 0 to 60 and entries at the standard levels; "
          "every pair of standard levels in several letter cases; exceptions with tracebacks of 1 to 3 frames")
ASSUMPTIONS = ["loguru behaves as documented for add, remove, level and log (a model in symbolic runs, the real one in replays)", "nobody else removes the handler of Log, except that an assignment of a stream after that works again"]

LEVELS = ["Info", "cRITICAL", "debug", "Alpha", "BETA"]
CASES = [str.upper, str.lower, str.title, str.swapcase]


class Spec:
    """the level and the stream in effect"""

    def __init__(self, c, nos, out, err):
        self.c, self.nos, self.level, self.stream, self.used, self.out = c, nos, STD["INFO"], None, False, out
        self.cleared = False


def perform(c, L, logger, s, k, op, sinks, foreign):
    """one operation and what it must do"""
    kind, arg = op
    tag = "entry-%d-end" % k
    if kind == "level":
        if arg in ("Nope", "", "Inf"):
            c.check(c.raises(lambda: L.level(arg), ValueError), "unknown level is rejected")
            return
        L.level(arg)
        s.level = s.nos[arg.upper()]
        return
    if kind == "stream":
        if arg in ("none", "object", "number"):
            c.check(c.raises(lambda: L.stream(dict(none=None, object=object(), number=7)[arg]), ValueError), "a stream without write is rejected")
            return
        s.stream = s.out if arg == "stdout" else sinks[arg]
        L.stream(s.stream)
        s.used, s.cleared = True, False
        return
    if kind == "add":
        x = Sink("foreign%d" % k)
        foreign.append(x)
        if arg == "default":
            logger.add(x, level=0)
        else:
            logger.add(x, level=s.nos[arg.upper()])
            foreign.pop()
        return
    if kind == "clear":
        logger.remove()
        foreign.clear()
        s.cleared = s.used or s.maybe
        return
    if arg == "Nope":
        c.check(c.raises(lambda: L.write(arg, tag), ValueError), "unknown level is rejected")
        everywhere = [s.out] + list(sinks.values()) + foreign
        c.check(all(x.count(tag) == 0 for x in everywhere), "nothing is written for an unknown level")
        s.maybe = True
        return
    L.write(arg, tag)
    s.used = True
    expect(c, s, s.nos[arg.upper()] >= s.level, tag, sinks, foreign)


def expect(c, s, enabled, tag, sinks, foreign):
    where = s.stream or s.out
    for x in [s.out] + list(sinks.values()):
        n = x.count(tag)
        if x is where and not s.cleared:
            c.check(c.either(c.both(enabled, n == 1), c.both(c.no(enabled), n == 0)), "written once to the stream if enabled")
        elif x is not where:
            c.check(n == 0, "written to no other stream")
    for x in foreign:
        n = x.count(tag)
        c.check(c.either(c.both(enabled, n == 1), c.both(c.no(enabled), n == 0)), "handlers of others stay")


OPS = [("level", a) for a in ["Info", "cRITICAL", "Alpha", "BETA", "Nope", "Inf"]] + [("stream", a) for a in ["A", "B", "stdout", "none", "object"]] + \
      [("write", a) for a in ["Info", "debug", "alpha", "Beta", "Nope"]] + [("add", "default"), ("clear", None)]


def history(c, first, n, last=None):
    """a history of operations, then a write and a look at the handlers"""
    with world(c) as (logger, L, out, err):
        a, b = c.int("alpha", 0, 60), c.int("beta", 0, 60)
        if not c.symbolic:
            a, b = int(a), int(b)
        logger.level("ALPHA", no=a)
        logger.level("BETA", no=b)
        nos = dict(STD, ALPHA=a, BETA=b)
        sinks = {"A": Sink("A"), "B": Sink("B")}
        foreign = []
        s = Spec(c, nos, out, err)
        s.maybe = False
        for k in range(n):
            op = OPS[first] if k == 0 else OPS[c.choice("op%d" % k, len(OPS))]
            perform(c, L, logger, s, k, op, sinks, foreign)
        perform(c, L, logger, s, 90, ("write", "ALPHA"), sinks, foreign)
        # handlers that remain
        logger.log("CRITICAL", "direct-end")
        where = s.stream or out
        if not s.cleared:
            c.check(where.count("direct-end") == 1, "one handler of Log remains")
        c.check(all(x.count("direct-end") == 0 for x in [out] + list(sinks.values()) if x is not where), "earlier handlers of Log are removed")
        c.check(all(x.count("direct-end") == 1 for x in foreign), "handlers of others remain")
        c.check(err.count("direct-end") == 0, "the initial default handler is removed")


def untouched(c):
    """Log leaves loguru alone until a stream is assigned or an entry is written"""
    with world(c) as (logger, L, out, err):
        x = Sink("x")
        if c.flag("add"):
            logger.add(x, level=0)
        if c.flag("level"):
            L.level("Warning")
        if c.flag("rejected"):
            c.check(c.raises(lambda: L.stream(None), ValueError), "rejected")
        logger.log("ERROR", "direct-end")
        c.check(err.count("direct-end") == 1, "the default handler stays until Log is used")
        c.check(out.count("direct-end") == 0, "nothing on standard output until Log is used")


def levels(c):
    """standard levels in any letter case"""
    with world(c) as (logger, L, out, err):
        names = sorted(STD)
        a, b = names[c.choice("a", 7)], names[c.choice("b", 7)]
        f = CASES[c.choice("case", 4)]
        explicit = c.flag("set")
        if explicit:
            L.level(f(a.title()))
        s = Sink("s")
        if c.flag("stream"):
            L.stream(s)
        L.write(f(b.title()), "entry-end")
        on = STD[b] >= (STD[a] if explicit else 20)
        c.check(out.count("entry-end") + s.count("entry-end") == (1 if on else 0), "written once if enabled")
        if on:
            t = "".join(out.text + s.text)
            c.check(b in t, "the level is named")


def custom(c):
    """two custom levels: an entry is written exactly when its number is at least that of the level"""
    with world(c) as (logger, L, out, err):
        nos = [c.int("n%d" % k, 0, 1000) for k in range(3)]
        names = ["ONE", "TWO", "THREE"]
        for name, v in zip(names, nos):
            logger.level(name, no=v if c.symbolic else int(v))
        s = Sink("s")
        L.stream(s)
        cur = 20
        for k in range(3):
            if c.flag("set%d" % k):
                L.level(names[k].lower())
                cur = nos[k]
            j = c.choice("w%d" % k, 4)
            L.write((names + ["Info"])[j], "entry-%d-end" % k)
            on = (nos + [20])[j] >= cur
            n = s.count("entry-%d-end" % k)
            c.check(c.either(c.both(on, n == 1), c.both(c.no(on), n == 0)), "written exactly when at or above the level")


ENTRIES = ["plain", "{x} {0} {}", "<red>a</red> <b>", "%s %d {{}}", "two\nlines", "tab\t\u00e9\u4e2d", "{", "}", "<level>", "\\<", "a" * 300, "", " "]


def entries(c):
    """entries are written as given"""
    with world(c) as (logger, L, out, err):
        e = ENTRIES[c.choice("entry", len(ENTRIES))]
        L.write("Warning", e)
        t = "".join(out.text)
        c.check(t.count(e) >= 1 and t.rstrip("\n").endswith(e), "the entry as given")
        c.check("WARNING" in t, "the level is named")


class Odd(Exception):
    def __str__(self): return "odd {text} <b>"


def boom(k, e):
    if k:
        return boom(k - 1, e)
    raise e


def exceptions(c):
    """entries of exceptions name type, message and the line of every frame"""
    kinds = [ValueError("bad {x} value"), KeyError("k"), Odd(), ZeroDivisionError()]
    with world(c) as (logger, L, out, err):
        e = kinds[c.choice("kind", len(kinds))]
        depth = [0, 1, 2, 7, 31][c.choice("depth", 5)]
        if c.flag("raised"):
            try:
                boom(depth, e)
            except Exception as ex:
                L.write("Error", ex)
                lines = []
                tb = ex.__traceback__
                while tb:
                    lines.append(tb.tb_lineno)
                    tb = tb.tb_next
        else:
            L.write("Error", e)
            lines = []
        t = "".join(out.text)
        c.check(type(e).__name__ in t and str(e) in t, "type and message of the exception")
        got = [int(x.split()[0]) for x in t.split("Line = ")[1:]]
        c.check(got == lines, "the line of every frame")
        c.check(t.count("C03.py") == len(lines), "the file of every frame")


def instances(tier):
    out = []

    def add(name, fn, **kw):
        out.append(dict(name=name, fn=fn, kw=kw, budget=200, max_paths=20000, witnesses=12))
    n = 3 if tier == "quick" else 4
    for k, op in enumerate(OPS):
        add("history of %d from %s %s" % (n, op[0], op[1]), "history", first=k, n=n)
    add("unused", "untouched")
    add("standard levels", "levels")
    add("custom levels", "custom")
    add("entries", "entries")
    add("exceptions", "exceptions")
    return out
