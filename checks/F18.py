"""Window filter multiplies by a normalised window of its style."""
import math

from checks.lib import signal

BOUNDS = "orders 0..16, 31, 64 and 200 of every style, both normal flags, letter cases of style names, every real, complex or integer signal; arbitrary prototypes in place of scipy.signal.get_window for orders 0..4"
ASSUMPTIONS = ["Kaiser windows have beta 7", "orders above the thorough bound (64) are outside the bound"]

A = dict(Hann=(0.5, -0.5), Hamming=(0.54, -0.46), Blackman=(0.42, -0.5, 0.08))


def bessel(x):
    """modified Bessel function of the first kind, order 0"""
    t, s, k = 1.0, 1.0, 0
    while t > 1e-18 * s:
        k += 1
        t *= (x / (2.0 * k)) ** 2
        s += t
    return s


def window(style, n):
    if n == 1:
        return [1.0]
    if style == "Kaiser":
        return [bessel(7.0 * math.sqrt(max(1.0 - (2.0 * k / (n - 1) - 1.0) ** 2, 0.0))) / bessel(7.0) for k in range(n)]
    return [sum(v * math.cos(2.0 * math.pi * i * k / (n - 1)) for i, v in enumerate(A[style])) for k in range(n)]


def real(c, style, order, normal, kind="f", aslist=False, name=None):
    """the window itself"""
    n = order + 1
    w = window(style, n)
    f = c.db.WindowFilter(name or style, order, normal)
    t = sum(abs(v) for v in w)
    if normal and t < 1e-12:
        # the exact window is zero everywhere: no scaling gives it the documented sum
        c.close(sum(abs(v) for v in f.b), float(n), 1e-9, "magnitudes sum to order + 1")
        c.check(all(abs(v) < 1e-9 or v > 0.0 for v in f.b), "window of the style")
        return
    if normal:
        w = [v * (n / t) for v in w]
    c.check(len(f.b) == n, "order + 1 coefficients")
    c.close(list(f.b), w, 1e-9, "window of the style")
    c.close(list(f.b), list(f.b)[::-1], 1e-12, "symmetric")
    if normal:
        c.close(sum(abs(v) for v in f.b), float(n), 1e-9, "magnitudes sum to order + 1")
    x = signal(c, "x", n, kind, 40)
    y = f.filter(list(x) if aslist else c.arr(x, dict(f=float, c=complex, i=int)[kind]))
    c.check(len(y) == n, "one output per sample")
    c.close(list(y), [a * b for a, b in zip(w, x)], 1e-9, "product")
    for m in (n - 1, n + 1):
        if m:
            c.check(c.raises(lambda: f.filter(c.arr([0.5] * m)), ValueError), "length")
    z = f.filter(c.arr(x, dict(f=float, c=complex, i=int)[kind]))
    c.close(list(z), [a * b for a, b in zip(w, x)], 1e-9, "product, again")


def proto(c, order, normal, style="Hann"):
    """any prototype: normalisation and product do not depend on the particular window"""
    n = order + 1
    w = list(c.vec("w", n, 0, 1))    # no window of the package is below zero
    t = sum(abs(v) for v in w)
    c.assume(t >= 0.1)
    seen = []

    def get_window(window, Nx, fftbins=True, **k):
        c.check(Nx == n and not fftbins, "symmetric window of order + 1 coefficients")
        seen.append(window)
        return c.arr(list(w))
    c.stub("scipy.signal.get_window", get_window)
    f = c.db.WindowFilter(style, order, normal)
    if not seen:
        c.cut()                       # windows from elsewhere are decided by the other instances
    x = list(c.vec("x", n))
    y = f.filter(c.arr(x))
    if normal:
        c.close(sum(abs(v) for v in f.b), float(n), 1e-9, "magnitudes sum to order + 1")
    g = n / t if normal else 1.0
    c.close(list(f.b), [v * g for v in w], 1e-9, "scaled prototype")
    c.close(list(y), [v * g * u for v, u in zip(w, x)], 1e-9, "product")


def instances(tier):
    out = []

    def add(fn, **k):
        out.append(dict(name=fn + " " + " ".join("%s %s" % t for t in k.items()), fn=fn, kw=k, budget=100))
    for s in ("Blackman", "Hamming", "Hann", "Kaiser"):
        for order in list(range(17)) + ([31, 32, 63, 64, 127, 128, 200, 1000] if tier == "thorough" else [31, 64, 200]):
            for normal in (True, False):
                add("real", style=s, order=order, normal=normal)
        add("real", style=s, order=5, normal=True, kind="c", name=s.lower())
        add("real", style=s, order=4, normal=True, kind="i", name=s.upper())
        add("real", style=s, order=3, normal=False, kind="f", aslist=True)
    for order in range(5):
        for normal in (True, False):
            add("proto", order=order, normal=normal)
    return out
