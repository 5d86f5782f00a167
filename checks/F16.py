"""Polynomial rate filter interpolates the signal at the new sampling instants."""
import math
from fractions import Fraction

from checks.lib import horner, mixed

BOUNDS = ("order 1: arbitrary signals of 2..8 samples at listed rates in [0.2, 10], and every rate in [0.4, 2.2] for 2..3 samples; orders 2 and 3: all polynomials of degree up to the order, and all linear signals, of 5..9 samples; "
          "every order: the samples themselves at a rate of one; long instances (see the instance list) have a few symbolic values among listed ones")
ASSUMPTIONS = ["real arithmetic, with the accumulated binary64 rounding error bounded separately where finite", "outputs within one sample of the ends are only compared for linear signals (orders 2 and 3)"]


def count(n, rate):
    return int(round(n * rate)) if abs(n * rate % 1.0 - 0.5) > 1e-9 else int(2 * math.floor((n * rate + 1) / 2))


def linear(x, t):
    """linear interpolation, extended beyond the last sample"""
    n = len(x)
    i = min(int(math.floor(t + 1e-12)), n - 1)
    u = t - i
    a, b = x[i], (x[i + 1] if i + 1 < n else 2.0 * x[-1] - x[-2])
    return a + (b - a) * u


def order1(c, n, rate, kind="f", aslist=False):
    x = list(c.vec("x", n, kind=kind)) if n < 20 else mixed(c, "x", n, (0, 1, n // 2, -2, -1), kind)
    f = c.db.PolynomialRateFilter(rate=rate)
    y = f.filter(list(x) if aslist else c.arr(x, dict(f=float, i=int)[kind]))
    m = count(n, rate)
    c.check(len(y) == m, "length")
    for k in range(m):
        c.close(y[k], linear(x, k / rate), 1e-8, "linear interpolation")


def anyrate(c, n, lo, hi):
    """order 1 with a symbolic rate"""
    x = list(c.vec("x", n))
    r = c.real("rate", lo, hi)
    f = c.db.PolynomialRateFilter(rate=r)
    y = f.filter(c.arr(x))
    m = len(y)
    c.check(c.both(m <= n * r + 0.5 + 1e-9, m >= n * r - 0.5 - 1e-9), "length")
    ext = x + [2.0 * x[-1] - x[-2]]
    for k in range(m):
        t = k / r
        # y is on the segment of its time
        for i in range(n):
            seg = ext[i] + (ext[i + 1] - ext[i]) * (t - i)
            c.check(c.implies(c.both(t >= i, t < i + 1), abs(y[k] - seg) <= 1e-7), "linear interpolation")


def polynomial(c, order, n, rate, degree):
    p = list(c.vec("p", degree + 1, -1, 1))
    f = c.db.PolynomialRateFilter(rate=rate, order=order)
    y = f.filter(c.arr([horner(p, t) for t in range(n)]))
    m = count(n, rate)
    c.check(len(y) == m, "length")
    for k in range(m):
        t = float(Fraction(k) / Fraction(rate))
        if degree < 2 or 1.0 + 1e-9 < t < n - 2.0 - 1e-9:
            c.close(y[k], horner(p, t), 1e-6 * n ** degree, "polynomial at the new times")


def samples(c, order, n, assign):
    x = list(c.vec("x", n))
    f = c.db.PolynomialRateFilter(rate=0.5 if assign else 1.0, order=1 if assign else order)
    if assign:
        f.order = order
        f.rate = 1.0
        c.check(c.both(f.order == order, f.rate == 1.0), "assigned")
    y = f.filter(c.arr(x))
    c.check(len(y) == n, "length")
    if order >= 3 or order == 1:
        c.close(list(y), x, 1e-6, "samples at a rate of one")
    else:
        # a quadratic through four points: least squares, evaluated at the second one
        e = [2.0 * x[0] - x[1]] + x + [2.0 * x[-1] - x[-2], 3.0 * x[-1] - 2.0 * x[-2]]
        for k in range(n):
            w = [3.0 / 20, 11.0 / 20, 9.0 / 20, -3.0 / 20]
            c.close(y[k], sum(a * b for a, b in zip(w[1:], e[k + 1:k + 4])) + w[0] * e[k], 1e-6, "least squares quadratic")


def instances(tier):
    out = []

    def add(fn, **k):
        out.append(dict(name=fn + " " + " ".join("%s %s" % t for t in k.items()), fn=fn, kw=k))
    rates = (0.2, 0.5, 1 / 3, 1.0, 1.5, 2.0, math.pi, 0.75, 10.0)
    for r in rates:
        for n in (2, 5, 8):
            add("order1", n=n, rate=r)
    for n in range(2, 9):
        add("order1", n=n, rate=0.9)
    add("order1", n=4, rate=1.5, kind="i")
    add("order1", n=4, rate=1.5, aslist=True)
    for r, n in ((1.5, 270), (0.75, 400), (3.0, 130), (0.1, 600)):
        add("order1", n=n, rate=r)
    for order in (2, 3):
        add("polynomial", order=order, n=140, rate=0.75, degree=1)
        add("polynomial", order=order, n=40, rate=4.0, degree=order)
        add("polynomial", order=order, n=70, rate=1.25, degree=order)
    add("anyrate", n=2, lo=0.6, hi=2.2)
    add("anyrate", n=3, lo=0.4, hi=1.4)
    for order in (2, 3):
        for r in (0.5, 0.75, 1.0, 1.5, 2.0, math.pi, 1 / 3, 10.0):
            for n in (5, 9):
                add("polynomial", order=order, n=n, rate=r, degree=order)
            add("polynomial", order=order, n=6, rate=r, degree=1)
        add("polynomial", order=order, n=2, rate=2.0, degree=1)
        add("polynomial", order=order, n=3, rate=1.25, degree=1)
    for order in (1, 2, 3):
        add("samples", order=order, n=6, assign=False)
        add("samples", order=order, n=5, assign=True)
    if tier == "thorough":
        add("anyrate", n=4, lo=0.4, hi=2.2)
        for order in (2, 3):
            for n in range(5, 13):
                for r in (0.4, 0.6, 1.1, 2.7, 5.0):
                    add("polynomial", order=order, n=n, rate=r, degree=order)
    return out
