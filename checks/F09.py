"""Integral filters accumulate the quadrature rule of their order."""
from checks.lib import horner, mixed

BOUNDS = "orders 0..4; polynomials of degree 1, 3, 3 and 5 with coefficients in [-2, 2] for 3 increments after the window is filled (thorough 8); arbitrary signals of 4..6 samples for the running sum; real, complex and integer samples; long instances (see the instance list) have a few symbolic values among listed ones"
ASSUMPTIONS = ["real arithmetic, with the accumulated binary64 rounding error bounded separately and added to the tolerance", "unit sample interval"]
DEGREE = {1: 1, 2: 3, 3: 3, 4: 5}
T = dict(f=float, c=complex, i=int)


def quadrature(c, order, kind, outputs):
    deg = DEGREE[order]
    p = list(c.vec("p", deg + 1, -2, 2, kind=kind))
    f = c.db.IntegralFilter(order=order)
    n = order + 1 + outputs
    x = [horner(p, t) for t in range(n)]
    y = list(f.filter(c.arr(x, T[kind])))
    c.check(len(y) == n, "length")
    P = [0.0] + [v / (k + 1.0) for k, v in enumerate(p)]
    for k in range(order, n):
        if k:
            c.close((y[k] - y[k - 1]) * order, horner(P, float(k)) - horner(P, float(k - order)), 1e-6, "increment is the mean over the window")


def running(c, order, kind, n, split):
    x = list(c.vec("x", n, kind=kind)) if n < 20 else mixed(c, "x", n, (0, 1, n // 2, -1), kind)
    f = c.db.IntegralFilter(order=order)
    y = list(f.filter(c.arr(x[:split], T[kind]))) + (list(f.filter(c.arr(x[split:], T[kind]))) if split < n else [])
    # the increment is a fixed weighted mean of the latest order + 1 samples, the same at every time, with weights summing to one
    w = {0: [1.0], 1: [1 / 2, 1 / 2], 2: [1 / 6, 4 / 6, 1 / 6], 3: [1 / 8, 3 / 8, 3 / 8, 1 / 8], 4: [7 / 90, 32 / 90, 12 / 90, 32 / 90, 7 / 90]}[order]
    last = 0.0
    for k in range(n):
        t = 0.0
        for i, v in enumerate(w):
            if k >= i:
                t = t + v * x[k - i]
        c.close(y[k], last + t, 1e-9, "running sum")
        last = last + t


def unsupported(c):
    for o in range(-2, 8):
        ok = True
        try:
            c.db.IntegralFilter(order=o)
        except ValueError:
            ok = False
        c.check(ok == (0 <= o <= 4), "supported orders")


def instances(tier):
    out = []
    th = tier == "thorough"
    for o in range(1, 5):
        for kind in "fci":
            out.append(dict(name="order %d %s" % (o, kind), fn="quadrature", kw=dict(order=o, kind=kind, outputs=8 if th else 3)))
    for o in range(5):
        for kind in "fci":
            out.append(dict(name="running order %d %s" % (o, kind), fn="running", kw=dict(order=o, kind=kind, n=8 if th else 6, split=8 if th else 6)))
        out.append(dict(name="running order %d two calls" % o, fn="running", kw=dict(order=o, kind="f", n=5, split=2)))
    for o, kind, n, split in ((0, "f", 260, 256), (1, "f", 600, 520), (2, "i", 300, 150), (3, "c", 260, 3), (4, "f", 300, 300)):
        out.append(dict(name="long order %d %s n %d split %d" % (o, kind, n, split), fn="running", kw=dict(order=o, kind=kind, n=n, split=split)))
    out.append(dict(name="supported orders", fn="unsupported", kw={}))
    return out
