"""Fourier transform values match their frequency labels and invert."""
import math

from checks.lib import cis, signal, total

BOUNDS = "lengths 1..6 and 8 (to 16 in thorough), arbitrary real, complex or integer signals, arbitrary windows (some entry of magnitude at least 0.05 forward, every interior one for the inverse), windows with zero or small ends, signals longer than the window; lengths 27..64 with four arbitrary samples and window entries"
ASSUMPTIONS = ["values in [-4, 4]", "windows whose entries all lie below numpy's closeness tolerance are rejected by the code and not claimed",
               "the inverse is claimed where window entries are at least 0.05 in magnitude"]
T = dict(f=float, c=complex, i=int)


def component(w, x, f, n):
    return total([w[k] * x[k] * cis(-f * k) for k in range(n)]) * (1.0 / n)


def forward(c, n, m=None, kind="f", form="array", wkind="f"):
    m = m or n
    x = signal(c, "x", m, kind)
    w = signal(c, "w", n, wkind, 24, -2, 2)
    c.assume(c.any([abs(v) >= 0.05 for v in w]))
    xa = list(x) if form == "list" else c.arr(x, T[kind])
    wa = list(w) if form == "list" else c.arr(w, T[wkind])
    y, f = c.db.FourierTransform.transform(xa, b=wa)
    c.check(len(y) == n and len(f) == n, "one value and label per window entry")
    lo = -(n // 2)
    for k in range(n):
        c.close(f[k], 2.0 * (lo + k) / n, 1e-12, "label")
        c.close(y[k], component(w, x, 2.0 * (lo + k) / n, n), 1e-9, "value at its label")
    c.check(f[0] >= -1.0 and f[n - 1] < 1.0, "labels in [-1, 1)")
    c.close(list(xa), x, 0.0, "signal unchanged")
    c.close(list(wa), w, 0.0, "window unchanged")


def inverse(c, n, ends=(), kind="f", form="array"):
    """forward and back with the same window"""
    x = list(c.vec("x", n, kind=kind))
    w = []
    for k in range(n):
        if k in ends or k - n in ends:
            w.append(0.0)
        else:
            v = c.real("w[%d]" % k, -2, 2)
            c.assume(abs(v) >= 0.05)
            w.append(v)
    wa = list(w) if form == "list" else c.arr(w)
    F = c.db.FourierTransform.transform
    y, _ = F(c.arr(x, T[kind]), b=wa, inverse=False)
    z, f = F(list(y) if form == "list" else y, b=wa, inverse=True)
    c.check(len(z) == n and len(f) == n, "length")
    for k in range(n):
        if k in ends or k - n in ends:
            c.check(c.both(abs(z[k].real) <= 1e6, abs(z[k].imag) <= 1e6), "finite at a zero end")
            continue
        c.close(z[k], x[k], 1e-9, "identity")
        c.close(f[k], float(k), 1e-12, "index")
    c.close(list(wa), w, 0.0, "window unchanged")


def synth(c, n):
    """the inverse of any spectrum is the sum of its labelled components over the window"""
    y = list(c.vec("y", n, kind="c"))
    w = []
    for k in range(n):
        v = c.real("w[%d]" % k, -2, 2)
        c.assume(abs(v) >= 0.05)
        w.append(v)
    ya = c.arr(y, complex)
    z, f = c.db.FourierTransform.transform(ya, b=c.arr(w), inverse=True)
    lo = -(n // 2)
    for k in range(n):
        c.close(z[k] * w[k], total([y[i] * cis(2.0 * (lo + i) / n * k) for i in range(n)]), 1e-9, "component sum")
    c.close(list(ya), y, 0.0, "spectrum unchanged")


def window(c, style, n):
    """windows of the package, any signal"""
    x = signal(c, "x", n)
    w = c.db.WindowFilter(style, n - 1).b
    y, f = c.db.FourierTransform.transform(c.arr(x), b=w)
    z, _ = c.db.FourierTransform.transform(y, b=w, inverse=True)
    for k in range(n):
        if abs(float(w[k])) > 1e-6:
            c.close(z[k], x[k], 1e-9, "identity")
    lo = -(n // 2)
    for k in range(n):
        c.close(f[k], 2.0 * (lo + k) / n, 1e-12, "label")
        c.close(y[k], component([float(v) for v in w], x, 2.0 * (lo + k) / n, n), 1e-9, "value at its label")


def ends(c, n, a, b):
    """windows with small but not zero ends"""
    x = signal(c, "x", n)
    w = [a] + [1.0 - 0.25 * (k % 3) for k in range(n - 2)] + [b]
    y, f = c.db.FourierTransform.transform(c.arr(x), b=c.arr(w))
    z, _ = c.db.FourierTransform.transform(y, b=c.arr(w), inverse=True)
    for k in range(n):
        c.close(z[k], x[k], 1e-6, "identity")


def reject(c):
    F = c.db.FourierTransform.transform
    for inv in (False, True):
        c.check(c.raises(lambda: F([], b=[1.0], inverse=inv), ValueError), "empty signal")
        c.check(c.raises(lambda: F([1.0], b=[1.0, 1.0], inverse=inv), ValueError), "window longer than the signal")
        c.check(c.raises(lambda: F([1.0, 1.0], b=[0.0, 0.0], inverse=inv), ValueError), "zero window")


def instances(tier):
    out = []

    def add(fn, **k):
        out.append(dict(name=fn + " " + " ".join("%s %s" % t for t in k.items()), fn=fn, kw=k, budget=150))
    big = (9, 10, 12, 15, 16) if tier == "thorough" else (7, 8, 9)
    for n in (1, 2, 3, 4, 5, 6) + big:
        add("forward", n=n)
        add("inverse", n=n)
        add("synth", n=n)
        if n <= 6:
            add("forward", n=n, kind="c")
            add("inverse", n=n, kind="c")
    for n in (3, 4):
        add("forward", n=n, kind="i", wkind="i")
        add("forward", n=n, m=n + 2)
        add("forward", n=n, kind="c", form="list")
        add("inverse", n=n, kind="c", form="list")
        add("inverse", n=n, kind="i")
        for ends in ((0,), (-1,), (0, -1)):
            add("inverse", n=n, ends=ends)
    add("inverse", n=5, ends=(0, -1), form="list")
    for s in ("Hann", "Blackman", "Hamming", "Kaiser"):
        for n in (4, 5, 8):
            add("window", style=s, n=n)
    add("window", style="Hann", n=33)
    for n, a, b in ((4, 1e-3, 1e-3), (5, 4e-4, 1.0), (6, 1.0, 2e-5), (4, 1e-6, -1e-6)):
        add("ends", n=n, a=a, b=b)
    add("window", style="Kaiser", n=64)
    add("forward", n=40, m=45)
    add("forward", n=27, kind="c")
    for n, m in ((1, 2), (1, 5), (2, 3), (2, 9), (4, 9), (5, 6), (5, 11), (6, 20), (8, 9)):
        add("forward", n=n, m=m)
    add("reject")
    return out
