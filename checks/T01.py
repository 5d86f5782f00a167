"""Complex transform converts between three-phase and complex without loss."""
import math

from checks.lib import signal

BOUNDS = "signals of 1..5 samples (16 in thorough) with arbitrary values and of 70..400 samples with four arbitrary ones, with and without neutral, vectors and single rows, arrays and lists, integer and complex values"
ASSUMPTIONS = ["values in [-4, 4]"]
R3 = 3.0 ** 0.5
GAIN = complex(math.cos(math.pi / 6.0), -math.sin(math.pi / 6.0)) / R3
T = dict(f=float, c=complex, i=int)


def forward(x, neutral):
    """alpha + j beta"""
    out = []
    for n in range(len(x[0])):
        a, b, g = x[0][n], x[1][n], x[2][n]
        re = (2.0 * a - b - g) * (1.0 / 3.0)
        im = (b - g) * (1.0 / R3)
        y = re + 1j * im
        out.append(y if neutral else y * GAIN)
    return out


def backward(v, neutral):
    a, b, g = [], [], []
    for y in v:
        if not neutral:
            y = y * (1.0 / GAIN)
        re, im = y.real, y.imag
        a.append(re)
        b.append(-0.5 * re + (0.5 * R3) * im)
        g.append(-0.5 * re - (0.5 * R3) * im)
    return [a, b, g]


def vals(c, kind, x, form):
    if form == "list":
        return x
    return c.arr(x, T[kind])


def phases(c, n, neutral, kind="f", form="array"):
    """three-phase to complex, and back when the sum is zero"""
    a, b, g = (signal(c, k, n, kind) for k in "abg")
    x = vals(c, kind, [a, b, g], form)
    y = c.db.ComplexTransform.transform(x, neutral=neutral) if neutral is not None else c.db.ComplexTransform.transform(x)
    nt = neutral is None or neutral
    c.check(tuple(y.shape) == (n,), "one complex sample per column")
    c.close(list(y), forward([a, b, g], nt), 1e-9, "matrix")
    c.close([v for r in (x if form == "list" else [list(r) for r in x]) for v in r], a + b + g, 0.0, "argument unchanged")
    if kind != "c":
        z = c.db.ComplexTransform.transform(y, neutral=nt)
        c.check(tuple(z.shape) == (3, n), "three rows")
        m = [(p + q + r) * (1.0 / 3.0) for p, q, r in zip(a, b, g)]
        for k, p in enumerate((a, b, g)):
            c.close(list(z[k]), [u - v for u, v in zip(p, m)], 1e-9, "phases without their mean")


def cplx(c, n, neutral, kind="c", form="array"):
    """complex to three-phase and back"""
    v = signal(c, "v", n, kind)
    if form == "row":
        x = c.arr([v], T[kind])
    else:
        x = vals(c, kind, v, form)
    y = c.db.ComplexTransform.transform(x, neutral=neutral)
    c.check(tuple(y.shape) == (3, n), "three rows")
    e = backward([t + 0j for t in v], neutral)
    for k in range(3):
        c.close(list(y[k]), e[k], 1e-9, "phase")
    c.close([y[0][k] + y[1][k] + y[2][k] for k in range(n)], [0.0] * n, 1e-9, "zero sum")
    z = c.db.ComplexTransform.transform(y, neutral=neutral)
    c.check(tuple(z.shape) == (n,), "one row")
    c.close(list(z), v, 1e-9, "identity")
    c.close(list(x[0] if form == "row" else x), v, 0.0, "argument unchanged")


def shapes(c, neutral):
    f = c.db.ComplexTransform.transform
    for rows in (2, 4, 5):
        c.check(c.raises(lambda: f(c.arr([[0.5, 1.0]] * rows), neutral=neutral), ValueError), "rows")
    c.check(c.raises(lambda: f([], neutral=neutral), ValueError), "empty")
    c.check(c.raises(lambda: f(c.arr([[[0.5]]]), neutral=neutral), ValueError), "dimensions")


def instances(tier):
    out = []

    def add(fn, **k):
        out.append(dict(name=fn + " " + " ".join("%s %s" % t for t in k.items()), fn=fn, kw=k, budget=100))
    for neutral in (True, False):
        for n in (1, 2, 3, 5) + ((9, 16) if tier == "thorough" else ()):
            add("phases", n=n, neutral=neutral)
            add("cplx", n=n, neutral=neutral)
        for kind in "ic":
            add("phases", n=3, neutral=neutral, kind=kind)
            add("phases", n=2, neutral=neutral, kind=kind, form="list")
        for kind in "fi":
            add("cplx", n=3, neutral=neutral, kind=kind)
            add("cplx", n=2, neutral=neutral, kind=kind, form="list")
        add("cplx", n=2, neutral=neutral, kind="c", form="list")
        add("cplx", n=4, neutral=neutral, kind="c", form="row")
        add("cplx", n=1, neutral=neutral, kind="c", form="row")
        add("shapes", neutral=neutral)
        add("phases", n=400, neutral=neutral)
        add("cplx", n=400, neutral=neutral)
        add("cplx", n=70, neutral=neutral, kind="c", form="row")
    add("phases", n=2, neutral=None)
    return out
