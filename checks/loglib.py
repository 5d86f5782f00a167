"""A model of loguru's handler and level tables for symbolic runs; the real loguru, freshly imported, for replays."""
import contextlib
import re
import sys
import types
from collections import namedtuple

STD = dict(TRACE=5, DEBUG=10, INFO=20, SUCCESS=25, WARNING=30, ERROR=40, CRITICAL=50)
Level = namedtuple("Level", "name no color icon")


class Sink:
    """a stream that keeps what is written"""

    def __init__(self, name): self.name, self.text = name, []
    def write(self, s): self.text.append(str(s))
    def flush(self): pass
    def isatty(self): return False
    def count(self, entry): return sum(t.count(entry) for t in self.text)


class Model:
    """what loguru documents for add, remove, level and log"""

    def __init__(self, hook=lambda what: None):
        self._levels = {n: Level(n, v, "", "") for n, v in STD.items()}
        self._handlers, self._next, self._hook = {}, 0, hook
        self._opt = {}
        self._disabled = set()

    def level(self, name, no=None, color=None, icon=None):
        self._hook("level")
        if not isinstance(name, str):
            raise TypeError("Invalid level name")
        if no is color is icon is None:
            if name not in self._levels:
                raise ValueError("Level '%s' does not exist" % name)
            return self._levels[name]
        if name in self._levels:
            if no is not None:
                raise ValueError("Level '%s' already exists" % name)
            return self._levels[name]
        self._levels[name] = Level(name, no, color or "", icon or "")
        return self._levels[name]

    def add(self, sink, *, level="DEBUG", format="{time} | {level} | {message}", filter=None, colorize=None, serialize=False, backtrace=True, diagnose=True, enqueue=False, context=None, catch=True, **k):
        self._hook("add")
        if not (callable(sink) or callable(getattr(sink, "write", None))):
            raise TypeError("Cannot log to objects of type")
        no = self.level(level).no if isinstance(level, str) else level
        if isinstance(no, int) and no < 0:
            raise ValueError("Invalid level value")
        i, self._next = self._next, self._next + 1
        h = dict(self._handlers)
        h[i] = (sink, no, format, filter)
        self._hook("installed")
        self._handlers = h
        return i

    def remove(self, i=None):
        self._hook("remove")
        if i is None:
            self._handlers = {}
            return
        if i not in self._handlers:
            raise ValueError("There is no existing handler with id %r" % i)
        self._handlers = {k: v for k, v in self._handlers.items() if k != i}

    def opt(self, **k):
        m = Model.__new__(Model)
        m.__dict__ = dict(self.__dict__)
        m._parent = getattr(self, "_parent", self)
        m._opt = dict(self._opt, **k)
        return m

    def bind(self, **k): return self
    def patch(self, f): return self
    def enable(self, n): pass
    def disable(self, n): pass
    @contextlib.contextmanager
    def contextualize(self, **k): yield

    def log(self, level, message, *args, **kwargs):
        core = getattr(self, "_parent", self)
        core._hook("log")
        if isinstance(level, str):
            if level not in core._levels:
                raise ValueError("Level '%s' does not exist" % level)
            name, no = level, core._levels[level].no
        else:
            name, no = "Level %s" % level, level
        message = str(message)
        if args or kwargs:
            message = message.format(*args, **kwargs)
        if self._opt.get("colors"):
            message = re.sub(r"<[^<>]*>", "", message)
        for i, (sink, low, fmt, flt) in list(core._handlers.items()):
            if no >= low:
                if callable(fmt):
                    fmt = fmt({})
                line = re.sub(r"<[^<>]*>", "", fmt)
                line = re.sub(r"\{level[^}]*\}", lambda m: name, re.sub(r"\{time[^}]*\}", "T", line))
                line = re.sub(r"\{message\}", lambda m: message, line) + "\n"
                core._hook("emit")
                (sink.write if hasattr(sink, "write") else sink)(line)

    def __getattr__(self, k):
        if k.upper() in STD:
            return lambda message, *a, **kw: self.log(k.upper(), message, *a, **kw)
        if k == "warn":
            return lambda message, *a, **kw: self.log("WARNING", message, *a, **kw)
        raise AttributeError(k)


@contextlib.contextmanager
def world(c, hook=lambda what: None, threading=None):
    """(logger, Log, standard output, standard error), all fresh"""
    out, err = Sink("stdout"), Sink("stderr")
    old = sys.stdout, sys.stderr
    saved = {k: m for k, m in sys.modules.items() if k == "loguru" or k.startswith("loguru.")}
    sys.stdout, sys.stderr = out, err
    try:
        if c.symbolic:
            m = types.ModuleType("loguru")
            m.logger = Model(hook)
            m.logger.add(err)
            c.stub("loguru", m)
            if threading is not None:
                c.stub("threading", threading)
            L = c.module("diamondback.commons.log").Log
            logger = m.logger
        else:
            for k in saved:
                del sys.modules[k]
            from loguru import logger
            if threading is not None:
                import diamondback.commons  # noqa
                import threading as real
                keep = {k: getattr(real, k) for k in ("RLock", "Lock")}
                for k in keep:
                    setattr(real, k, getattr(threading, k))
                try:
                    sys.modules.pop("diamondback.commons.log", None)
                    L = c.module("diamondback.commons.log").Log
                finally:
                    for k, v in keep.items():
                        setattr(real, k, v)
            else:
                L = c.module("diamondback.commons.log").Log
        yield logger, L, out, err
    finally:
        sys.stdout, sys.stderr = old
        if not c.symbolic:
            for k in [k for k in sys.modules if k == "loguru" or k.startswith("loguru.")]:
                del sys.modules[k]
            sys.modules.update(saved)


def total(sinks, entry):
    return {s.name: s.count(entry) for s in sinks}
