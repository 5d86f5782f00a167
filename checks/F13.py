"""Complex bandpass filter follows its adaptive recursion."""
import math

from checks.lib import cis, mixed

BOUNDS = "signals of 1..4 samples in one or two calls (thorough 5), every frequency in [-1, 1] and rate in [0, 1], both reassigned between calls, complex, real and integer samples, lists; 40 and 70 samples with three arbitrary ones at a listed frequency and rate"
ASSUMPTIONS = ["real arithmetic; exp(j pi f) is a pair of unknowns on the unit circle, with the angle addition theorem", "the analytic signal is defined through the discrete Fourier transform"]
T = dict(f=float, c=complex, i=int)


def analytic(c, x):
    """x + j h with the negative frequencies of the discrete Fourier transform removed"""
    n = len(x)
    out = []
    for k in range(n):
        t = 0.0
        for m in range(n):
            g = 0.0
            for f in range(n):
                w = 1.0 if f == 0 or 2 * f == n else 2.0 if 2 * f < n else 0.0
                if w:
                    g = g + w * cis(2.0 * f * (k - m) / n)
            t = t + x[m] * (g / n)
        out.append(t)
    return out


def recursion(c, n, kind, split=0, assign=False, aslist=False, sym="fr"):
    f = c.real("frequency", -1, 1) if "f" in sym else 0.3
    r = c.real("rate", 0, 1) if "r" in sym else 0.25
    d = list(c.vec("d", n, -2, 2, kind=kind)) if n < 20 else mixed(c, "d", n, (0, n // 2, -2), kind)
    g = c.db.ComplexBandpassFilter(frequency=f, rate=r)
    at, b = 0.0, None
    for i, part in enumerate([d[:split], d[split:]] if split else [d]):
        if i and assign:
            f, r = c.real("frequency2", -1, 1), c.real("rate2", 0, 1)
            g.frequency = f
            g.rate = r
            c.close([g.frequency, g.rate], [f, r], 0.0, "assigned")
        y, e, w = g.filter(list(part) if aslist else c.arr(part, T[kind]))
        c.check(c.all([len(y) == len(part), len(e) == len(part), len(w) == len(part)]), "length")
        z = part if kind == "c" else analytic(c, part)
        for k in range(len(part)):
            x = c.np.exp(1j * math.pi * at)
            if b is None:
                c.close(w[k], 0j, 1e-12, "starts from a negligible coefficient")
            else:
                c.close(w[k], b, 1e-8, "coefficient update")
            c.close(y[k], x * w[k], 1e-8, "reference")
            c.close(e[k] + y[k], z[k], 1e-8, "reference and error add up to the primary signal")
            b = w[k] + r * e[k] * x.conjugate()
            at = at + f


def converged(c, n):
    """a tone at the frequency with the coefficient already matching stays matched: the error vanishes"""
    f = c.real("frequency", -1, 1)
    g = c.db.ComplexBandpassFilter(frequency=f, rate=1.0)
    amp = c.complex("amplitude", -2, 2)
    y, e, b = g.filter(c.arr([amp * c.np.exp(1j * math.pi * f * k) for k in range(n)], complex))
    for k in range(1, n):
        c.close(e[k], 0j, 1e-8, "error of a matched tone")
        c.close(b[k], amp, 1e-8, "coefficient of a matched tone")


def instances(tier):
    out = []

    def add(fn="recursion", **k):
        out.append(dict(name=fn + " " + " ".join("%s %s" % t for t in k.items()), fn=fn, kw=k))
    for n in (1, 2, 3):
        add(n=n, kind="c")
        add(n=n, kind="f")
    add(n=4, kind="c", sym="r")
    add(n=4, kind="f", sym="f")
    add(n=2, kind="i")
    add(n=2, kind="c", aslist=True)
    add(n=2, kind="f", aslist=True)
    add(n=3, kind="c", split=1)
    add(n=3, kind="c", split=2, assign=True)
    add(n=4, kind="f", split=2, assign=True, sym="r")
    add("converged", n=3)
    add(n=40, kind="f", sym="", split=32)
    add(n=70, kind="c", sym="", split=66)
    if tier == "thorough":
        add(n=4, kind="c")
        add(n=4, kind="f")
        add(n=5, kind="c", split=2, sym="f")
        add("converged", n=5)
    return out
