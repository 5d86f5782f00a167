"""Complex frequency filter follows its adaptive recursion."""
import math

from checks.F13 import analytic
from checks.lib import mixed

BOUNDS = "signals of 1..3 samples in one or two calls, every frequency in [-1, 1] and rate in [0, 1], frequency reassigned and reset between calls, complex, real and integer samples, lists; long instances (see the instance list) have a few symbolic values among listed ones"
ASSUMPTIONS = ["real arithmetic; exp(j pi f) is a pair of unknowns on the unit circle, with the angle addition theorem", "samples with magnitudes between 1e-9 and 1e-7 are left out (numpy.isclose decides what a zero sample is)"]
T = dict(f=float, c=complex, i=int)


def unit(c, z, label):
    m = abs(z)
    if bool(m < 1e-9):
        return z
    c.assume(m > 1e-7)
    return z / m


def recursion(c, n, kind, split=0, assign=False, reset=False, aslist=False, sym="fr", far=True, lo=-2, hi=2):
    f = c.real("frequency", -1, 1) if "f" in sym else 0.3
    r = c.real("rate", 0, 1) if "r" in sym else 0.25
    d = list(c.vec("d", n, lo, hi, kind=kind)) if n < 20 else mixed(c, "d", n, (n - 2,), kind, 0.5, 2)
    g = c.db.ComplexFrequencyFilter(frequency=f, rate=r)
    b, s = c.np.exp(1j * math.pi * f), 1.0 + 0j
    for i, part in enumerate([d[:split], d[split:]] if split else [d]):
        if i and assign:
            f = c.real("frequency2", -1, 1)
            g.frequency = f
            g.rate = r = 0.5
            c.close([g.frequency, g.rate], [f, 0.5], 0.0, "assigned")
            b = c.np.exp(1j * math.pi * f)
        if i and reset:
            v = c.complex("v", -2, 2)
            g.reset(v)
            s = 1.0 + 0j if bool(abs(v) < 1e-9) else unit(c, v, "v")
        z = part if kind == "c" else analytic(c, part)
        x = [unit(c, t, "d") for t in z]
        y, e, w = g.filter(list(part) if aslist else c.arr(part, T[kind]))
        c.check(c.all([len(y) == len(part), len(e) == len(part), len(w) == len(part)]), "length")
        for k in range(len(part)):
            c.close(w[k], b, 1e-7, "coefficient")
            c.close(e[k], x[k] - b * s, 1e-7, "error")
            c.close(y[k], c.np.angle(w[k]) / math.pi, 1e-9, "reference is the angle over pi")
            b = b + r * e[k] * s.conjugate()
            s = x[k]


def tone(c, n, assign):
    """a tone at the current frequency leaves the filter unchanged"""
    f = c.real("frequency", -1, 1)
    f2, v2 = c.phasor("start")
    r = c.real("rate", 0, 1)
    a = c.real("amplitude", 0.125, 4)
    g = c.db.ComplexFrequencyFilter(frequency=0.0 if assign else f, rate=r)
    if assign:
        g.frequency = f
    g.reset(a * v2)
    y, e, b = g.filter(c.arr([a * v2 * c.np.exp(1j * math.pi * f * (k + 1)) for k in range(n)], complex))
    for k in range(n):
        c.close(e[k], 0j, 1e-8, "no error")
        c.close(b[k], c.np.exp(1j * math.pi * f), 1e-8, "coefficient unchanged")


def instances(tier):
    out = []

    def add(fn="recursion", **k):
        out.append(dict(name=fn + " " + " ".join("%s %s" % t for t in k.items()), fn=fn, kw=k))
    add(n=1, kind="c")
    add(n=2, kind="c")
    add(n=1, kind="f")
    add(n=2, kind="f")
    add(n=2, kind="f", sym="f")
    add(n=3, kind="f", sym="r", lo=0.5)
    add(n=3, kind="c", sym="r", lo=0.5)
    add(n=1, kind="i")
    add(n=1, kind="c", aslist=True)
    add(n=2, kind="c", split=1)
    add(n=2, kind="c", split=1, assign=True)
    add(n=2, kind="c", split=1, reset=True)
    add("tone", n=1, assign=False)
    add(n=80, kind="c", sym="", split=70)
    add(n=135, kind="c", sym="", split=5)
    add("tone", n=2, assign=False)
    add("tone", n=2, assign=True)
    if tier == "thorough":
        add(n=3, kind="c", lo=0.5)
        add("tone", n=3, assign=False)
    return out
