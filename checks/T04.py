"""Wavelet synthesis undoes wavelet analysis."""
import math

from checks.lib import signal as few, total

BOUNDS = ("Haar: 1 to 3 levels, vectors of 2..16 samples, single rows and columns, matrices up to 8 x 8; every other style and order: one level, vectors of the wavelet length + 2 to + 6 samples, and 2-D for the two shortest; "
          "arbitrary real values in [-4, 4] ; long vectors and matrices (128..512 samples, up to 8 levels for Haar) with four arbitrary values (complex and integer for Haar and the shortest wavelets)")
ASSUMPTIONS = ["reconstruction error up to 1e-6 for styles other than Haar, whose coefficient tables carry about 12 digits", "several levels of styles other than Haar are not claimed"]
T = dict(f=float, c=complex, i=int)
ORDERS = dict(Coiflet=(5, 11, 17, 23, 29), Daubechies=tuple(range(3, 20, 2)), Symmlet=tuple(range(7, 20, 2)))


def signal(c, shape, kind):
    if len(shape) == 1:
        return few(c, "x", shape[0], kind, 100)
    if shape[0] * shape[1] > 100:
        v = few(c, "x", shape[0] * shape[1], kind)
        return [v[i * shape[1]:(i + 1) * shape[1]] for i in range(shape[0])]
    return [list(r) for r in c.mat("x", shape[0], shape[1], kind=kind)]


def rows(y, shape):
    return [list(y)] if len(shape) == 1 else [list(r) for r in y]


def haar(c, shape, count, kind="f", form="array", style="Haar"):
    x = signal(c, shape, kind)
    xa = x if form == "list" else c.arr(x, T[kind])
    w = c.db.WaveletTransform(style, 1)
    y = w.transform(xa, count, False)
    c.check(tuple(y.shape) == tuple(shape), "shape of the analysis")
    y0 = [list(r) for r in rows(y, shape)]
    z = w.transform(y, count, True)
    c.check(tuple(z.shape) == tuple(shape), "shape of the synthesis")
    for r, e in zip(rows(z, shape), rows(x, shape)):
        c.close(r, e, 1e-9, "exact reconstruction")
    for r, e in zip(rows(y, shape), y0):
        c.close(r, e, 0.0, "analysis unchanged by synthesis")
    for r, e in zip(rows(xa, shape), rows(x, shape)):
        c.close(r, e, 0.0, "signal unchanged")


def haarback(c, shape, count, kind="f"):
    """synthesis then analysis"""
    x = signal(c, shape, kind)
    w = c.db.WaveletTransform("Haar", 1)
    z = w.transform(w.transform(c.arr(x, T[kind]), count, True), count, False)
    for r, e in zip(rows(z, shape), rows(x, shape)):
        c.close(r, e, 1e-9, "exact reconstruction")


def onelevel(c, style, order, extra, kind="f", form="array", twice=False):
    d = order - 1
    n = order + 1 + extra
    w = c.db.WaveletTransform(style, order)
    if twice:
        w.transform(c.arr(c.vec("p", n)), 1, False)
    x = few(c, "x", n, kind, 100)
    y = w.transform(x if form == "list" else c.arr(x, T[kind]), 1, False)
    z = w.transform(y, 1, True)
    c.check(len(y) == n and len(z) == n, "shape")
    c.close(list(z), [0.0] * d + x[:n - d], 1e-6, "reconstruction with a delay of order - 1")


def twodim(c, style, order, rr, cc):
    d = order - 1
    x = signal(c, (rr, cc), "f")
    w = c.db.WaveletTransform(style, order)
    z = w.transform(w.transform(c.arr(x), 1, False), 1, True)
    for i in range(rr):
        c.close(list(z[i]), [x[i - d][j - d] if i >= d and j >= d else 0.0 for j in range(cc)], 1e-6, "reconstruction with a delay of order - 1 in both dimensions")


def constant(c, style, order, count=1):
    v = c.real("v")
    n = order + 1 + 6
    n += -n % (2 ** count)
    n = n * 2 if count > 1 else n
    y = c.db.WaveletTransform(style, order).transform(c.arr([v] * n), count, False)
    m, lo = n, 0
    for k in range(count):
        # output i of a level depends on the inputs up to 2 i + 1 and order before it
        lo = (lo + order) // 2
        m //= 2
        if k == 0:
            c.close(list(y[m + lo:n]), [0.0] * (n - m - lo), 1e-6, "no detail in a constant")
    c.check(lo < m, "some filled output")
    c.close(list(y[lo:m]), [v] * (m - lo), 1e-6, "constant in the approximation band")


def reject(c):
    w = c.db.WaveletTransform("Haar", 1)
    for inv in (False, True):
        for count in (0, -1):
            c.check(c.raises(lambda: w.transform(c.arr([1.0, 2.0]), count, inv), ValueError), "count")
        c.check(c.raises(lambda: w.transform([], 1, inv), ValueError), "empty")
        c.check(c.raises(lambda: w.transform(c.arr([1.0, 2.0, 3.0]), 1, inv), ValueError), "odd length")
        c.check(c.raises(lambda: w.transform(c.arr([1.0] * 6), 2, inv), ValueError), "length not a multiple of 2 ** count")
        c.check(c.raises(lambda: w.transform(c.arr([[1.0, 2.0]] * 3), 1, inv), ValueError), "odd rows")
        c.check(c.raises(lambda: w.transform(c.arr([[[1.0, 2.0]]]), 1, inv), ValueError), "three dimensions")


def instances(tier):
    out = []

    def add(fn, **k):
        out.append(dict(name=fn + " " + " ".join("%s %s" % t for t in k.items()), fn=fn, kw=k, budget=150))
    for shape, count in (((2,), 1), ((8,), 1), ((8,), 2), ((8,), 3), ((16,), 3), ((12,), 2), ((1, 4), 1), ((1, 8), 2), ((4, 1), 1), ((8, 1), 3), ((2, 2), 1), ((2, 4), 1), ((4, 2), 1), ((4, 4), 2), ((4, 8), 2), ((8, 4), 1), ((1,), 1), ((1, 1), 2)):
        add("haar", shape=shape, count=count)
    for kind in "ci":
        for shape, count in (((8,), 2), ((4, 4), 2), ((1, 4), 1), ((4, 1), 2)):
            add("haar", shape=shape, count=count, kind=kind)
    add("haar", shape=(4,), count=1, form="list")
    add("haar", shape=(2, 4), count=1, form="list", kind="i")
    add("haar", shape=(4,), count=2, style="hAAR")
    for shape, count in (((8,), 2), ((4, 4), 2), ((1, 4), 2), ((8, 1), 2)):
        add("haarback", shape=shape, count=count)
    for s, os in ORDERS.items():
        for o in os:
            add("onelevel", style=s, order=o, extra=6)
            add("constant", style=s, order=o)
    add("constant", style="Haar", order=1, count=3)
    add("constant", style="Daubechies", order=3, count=2)
    add("constant", style="Coiflet", order=5, count=2)
    for s, o in (("Daubechies", 3), ("Coiflet", 5)):
        add("onelevel", style=s, order=o, extra=2, kind="c")
        add("onelevel", style=s, order=o, extra=2, kind="i", form="list")
        add("onelevel", style=s, order=o, extra=4, twice=True)
        add("onelevel", style=s.lower(), order=o, extra=4)
    add("haar", shape=(256,), count=8)
    add("haar", shape=(16, 32), count=4)
    add("haar", shape=(3 * 64, 1), count=6)
    add("onelevel", style="Daubechies", order=3, extra=132)
    add("onelevel", style="Symmlet", order=11, extra=128)
    add("twodim", style="Daubechies", order=3, rr=6, cc=4)
    add("twodim", style="Coiflet", order=5, rr=6, cc=6)
    if tier == "thorough":
        add("twodim", style="Symmlet", order=7, rr=8, cc=10)
        add("haar", shape=(16, 16), count=4)
        add("haar", shape=(64,), count=6)
        for s, os in ORDERS.items():
            for o in os:
                add("onelevel", style=s, order=o, extra=2 * o + 4)
    add("reject")
    return out
