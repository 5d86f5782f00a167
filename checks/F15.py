"""Goertzel output is the windowed Fourier component of each block."""
import math

from checks.lib import mixed

BOUNDS = "windows of 1..5 values (thorough 8), signals of up to three blocks and a remainder in one or two calls, every frequency in [-1, 1], real, complex and integer samples, frequency reassigned between blocks; long instances (see the instance list) have a few symbolic values among listed ones"
ASSUMPTIONS = ["real arithmetic; exp(j pi f) is a pair of unknowns on the unit circle, with the angle addition theorem"]
T = dict(f=float, c=complex, i=int)


def abs2(z):
    return z.real * z.real + z.imag * z.imag


def component(c, w, x, f, cx):
    u = (1.0 if cx else 2.0) / len(w)
    t = 0j
    for k in range(len(w)):
        t = t + w[k] * x[k] * c.np.exp(-1j * math.pi * f * k)
    return u * t


def blocks(c, nw, n, kind, kw="f", split=0, assign=False, freq=None, aslist=False):
    if n < 40:
        w = list(c.vec("w", nw, kind=kw))
        c.assume(abs2(w[0]) >= 0.01)
        x = list(c.vec("x", n, kind=kind))
    else:
        w, x = [(k % 7 + 1) / 8.0 for k in range(nw)], mixed(c, "x", n, (0, 1, n // 2, -1), kind)
    f = c.real("frequency", -1, 1) if freq is None else freq
    g = c.db.GoertzelFilter(b=w if aslist else c.arr(w, T[kw]), frequency=f)
    fs = []
    y = []
    for i, part in enumerate([x[:split], x[split:]] if split else [x]):
        if i and assign:
            f = c.real("frequency2", -1, 1)
            g.frequency = f
            c.close(g.frequency, f, 0.0, "assigned")
        y += list(g.filter(list(part) if aslist else c.arr(part, T[kind])))
        while len(fs) < len(y):
            fs.append(f)
        c.check(len(y) == (min(split, n) if split and not i else n) // nw, "one output per block")
    for k, v in enumerate(y):
        z = component(c, w, x[k * nw:(k + 1) * nw], fs[k], kind == "c")
        c.close(abs2(v), abs2(z), 1e-6 * (4.0 * nw) ** 2, "magnitude")


def instances(tier):
    out = []

    def add(**k):
        out.append(dict(name=" ".join("%s %s" % t for t in k.items()), fn="blocks", kw=k))
    for nw in (1, 2, 3):
        for kind in "fci":
            add(nw=nw, n=nw + 1, kind=kind)
    add(nw=4, n=4, kind="f")
    add(nw=5, n=11, kind="f", freq=0.3)
    add(nw=8, n=17, kind="c", freq=-0.35)
    add(nw=16, n=32, kind="f", freq=0.6)
    add(nw=5, n=5, kind="f", freq=0.3)
    add(nw=5, n=5, kind="c", freq=-0.7)
    add(nw=2, n=6, kind="f")
    add(nw=3, n=7, kind="f", freq=0.25)
    add(nw=2, n=5, kind="f", split=3)
    add(nw=3, n=6, kind="c", split=1, freq=0.4)
    add(nw=2, n=4, kind="f", split=2, assign=True)
    add(nw=3, n=6, kind="c", split=3, assign=True)
    add(nw=2, n=2, kind="f", kw="c")
    add(nw=2, n=3, kind="f", aslist=True)
    add(nw=2, n=3, kind="i", kw="i", aslist=True)
    add(nw=64, n=130, kind="f", freq=0.3)
    add(nw=100, n=205, kind="c", freq=-0.45, split=150)
    add(nw=3, n=280, kind="f", freq=0.7, split=270)
    add(nw=1, n=140, kind="i", freq=0.2)
    for fr in (-1.0, 0.0, 0.5, 1.0):
        add(nw=3, n=3, kind="f", freq=fr)
    if tier == "thorough":
        add(nw=5, n=5, kind="f")
        add(nw=4, n=5, kind="c")
        add(nw=8, n=9, kind="f", freq=0.3)
    return out
