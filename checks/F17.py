"""Polyphase rate filter resamples with unit gain at the requested rate."""
import math
from fractions import Fraction

from checks.lib import mixed

BOUNDS = ("listed rates from 0.1 to 256 with signals of 2..8 samples in one or two calls, and of 150 with four arbitrary samples among listed ones, arbitrary samples and reset values; every rate in [0.35, 2] for 2 samples; listed changes of rate; every row of the coefficient bank; "
          "ramps of 18..20 samples at listed rates")
ASSUMPTIONS = ["real arithmetic, with the accumulated binary64 rounding error bounded separately where finite",
               "the phase of an output is compared up to rounding: at half-way phases either neighbouring row is accepted", "delay of the bank: 7.498 samples at phase zero"]
D = 7.498


def bank(c):
    f = c.db.PolyphaseRateFilter(1.0)
    return [[float(v) for v in row] for row in f.b]


def dot(row, win):
    t = 0.0
    for a, b in zip(row, win):
        t = t + a * b
    return t


def inner(c, rate, n, split=0, reset=True, kind="f", aslist=False, assign=None):
    x = list(c.vec("x", n, kind=kind)) if n < 40 else mixed(c, "x", n, (0, n // 2, -2, -1), kind)
    v = c.real("v") if reset else 0.0
    f = c.db.PolyphaseRateFilter(rate=assign or rate)
    if assign:
        f.rate = rate
    c.close(f.rate, rate, 0.0, "rate")
    if reset:
        f.reset(v)
    T = dict(f=float, i=int)
    y = []
    for part in ([x[:split], x[split:]] if split else [x]):
        z = f.filter(list(part) if aslist else c.arr(part, T[kind]))
        c.check(len(z) <= int(math.floor(len(part) * rate + 0.5 + 1e-9)), "at most round(len * rate) samples")
        c.check(len(z) >= int(math.floor(len(part) * rate + 1e-9)) - 1, "no fewer samples than whole steps")
        y += list(z)
    B = bank(c)
    q = Fraction(rate)
    for k in range(len(y)):
        t = Fraction(k) / q
        ok = []
        for e in (-1, 1):               # the accumulated phase may lie on either side of a boundary
            u = t + Fraction(e, 10 ** 9)
            if u < 0:
                continue
            i = int(math.floor(u))
            r = min(int(math.floor((u - i) * 256 + Fraction(1, 2))), 255)
            w = dot(B[r], [x[i - m] if i - m >= 0 else v for m in range(15)])
            if not any(r == p for p, _ in ok):
                ok.append((r, w))
        ok = [w for _, w in ok]
        if len(ok) == 1:
            c.close(y[k], ok[0], 1e-9, "row of the nearest phase")
        else:
            c.check(c.any([abs(y[k] - o) <= 1e-9 for o in ok]), "row of the nearest phase")


def rows(c):
    """the bank: 256 phases of 15 samples, unit gain in every phase, mirror symmetric, delay falling by 1/256 per phase; and it is shared unchanged"""
    x = c.vec("x", 15)
    B = bank(c)
    f = c.db.PolyphaseRateFilter(256.0)
    c.check(len(B) == 256 and all(len(r) == 15 for r in B), "bank shape")
    f.s = c.arr([0.0] + list(x)[:14])
    for i in range(255):
        r = B[i]
        c.close(sum(r), 1.0, 1e-9, "unit gain of each phase")
        c.close(r, B[255 - i][::-1], 1e-9, "mirror symmetry")
        c.close(sum(m * v for m, v in enumerate(r)), D - i / 256.0, 3e-3, "delay of each phase")
    # symbolic signal through all phases of one sample
    a = c.real("a")
    y = f.filter(c.arr([a]))
    c.check(len(y) == 256, "256 samples at the largest rate")
    for k in range(0, 256):
        c.close(y[k], dot(B[k], [a] + list(x)[:14]), 1e-9, "phase by phase")


def constant(c, rate, n):
    v = c.real("v")
    f = c.db.PolyphaseRateFilter(rate)
    f.filter(c.vec("x", 2))
    f = c.db.PolyphaseRateFilter(rate)
    f.reset(v)
    y = f.filter(c.arr([v] * n))
    c.check(len(y) >= int(math.floor(n * rate + 1e-9)) - 1, "length")
    c.close(list(y), [v] * len(y), 1e-9, "constant stays constant")


def ramp(c, rate, n):
    a, b = c.real("a"), c.real("b")
    f = c.db.PolyphaseRateFilter(rate)
    y = f.filter(c.arr([a + b * k for k in range(n)]))
    for k in range(len(y)):
        t = k / rate
        if t >= 14.0:
            c.close(y[k], a + b * (t - D), 4 * 5e-3, "ramp of slope 1 / rate")


def anyrate(c, n, lo, hi):
    """a symbolic rate: whatever the phase, a constant stays constant and outputs stay within the bank"""
    v, x = c.real("v"), list(c.vec("x", n))
    r = c.real("rate", lo, hi)
    f = c.db.PolyphaseRateFilter(rate=r)
    f.reset(v)
    y = f.filter(c.arr([v] * n))
    m = len(y)
    c.check(m <= n * r + 0.5 + 1e-9, "at most round(len * rate) samples")
    c.check(m >= n * r - 1.5, "no fewer samples than whole steps")
    c.close(list(y), [v] * m, 1e-7, "constant stays constant")


def change(c, r1, r2, n, m):
    """a different rate starts at phase zero with the samples so far; the same rate changes nothing"""
    f, g, h = c.db.PolyphaseRateFilter(r1), c.db.PolyphaseRateFilter(r1), c.db.PolyphaseRateFilter(r2)
    x, z = c.vec("x", n), c.vec("z", m)
    f.filter(x)
    g.filter(x)
    g.rate = r1
    u = g.filter(z)
    h.s = c.arr(list(f.s))
    if r2 != r1:
        f.rate = r2
        c.close(f.rate, r2, 0.0, "rate")
        y, w = f.filter(z), h.filter(z)
        c.check(len(y) == len(w), "a different rate starts at phase zero")
        c.close(list(y), list(w), 1e-9, "a different rate starts at phase zero")
    else:
        c.close(list(f.filter(z)), list(u), 1e-9, "assigning the same rate changes nothing")


def instances(tier):
    out = []

    def add(fn, **k):
        out.append(dict(name=fn + " " + " ".join("%s %s" % t for t in k.items()), fn=fn, kw=k, budget=200))
    for r in (0.1, 0.25, 0.5, 0.75, 1.0, 1.25, 1 / 3, 1.5, 2.0, math.pi, 1 / math.pi, 7.0, 10.0):
        add("inner", rate=r, n=2 if r > 6 else 4 if r > 1.6 else 8)
    add("inner", rate=20.0, n=2)
    add("inner", rate=0.6, n=8, reset=False)
    add("inner", rate=1.2, n=5, reset=False, kind="i")
    add("inner", rate=1.2, n=5, aslist=True)
    add("inner", rate=1.0, n=6, split=2)
    add("inner", rate=2.0, n=4, split=1)
    add("inner", rate=0.5, n=8, split=4)
    add("inner", rate=1.7, n=4, assign=0.4)
    for r in (0.7, 1.0, 1.3):
        add("inner", rate=r, n=150, split=20 if r == 1.0 else 0)
    for r1, r2, n, m in ((0.3, 1.25, 2, 3), (1.7, 2.0, 3, 2), (0.7, 0.6, 4, 5), (0.7, 0.7, 4, 5), (1.9, 1.9, 3, 2)):
        add("change", r1=r1, r2=r2, n=n, m=m)
    add("rows")
    for r in (0.3, 1.0, 1.9, math.e, 100.0):
        add("constant", rate=r, n=3 if r > 5 else 8)
    for r in (0.7, 1.0, 2.3):
        add("ramp", rate=r, n=19)
    add("anyrate", n=3, lo=0.9, hi=1.1)
    add("anyrate", n=4, lo=0.45, hi=0.55)
    if tier == "thorough":
        for k in range(1, 40):
            add("inner", rate=k / 13.0 if k % 13 else k / 17.0, n=9)
        for r in (0.45, 1.1, 3.7):
            add("ramp", rate=r, n=24)
    return out
