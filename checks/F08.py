"""Derivative filters differentiate polynomials exactly."""
from checks.lib import deriv, horner

BOUNDS = "all supported derivatives and orders, polynomials of degree derivative + 1 with coefficients in [-2, 2], 3 outputs after the window is filled (thorough 8), real, complex and integer coefficients; long instances (see the instance list) have a few symbolic values among listed ones"
ASSUMPTIONS = ["real arithmetic, with the accumulated binary64 rounding error bounded separately and added to the tolerance", "unit sample interval"]
PAIRS = [(1, 1), (1, 2), (1, 4), (2, 2), (2, 4), (2, 6), (2, 8), (3, 4), (3, 6), (3, 8)]


def exact(c, d, order, kind, outputs, aslist=False):
    p = list(c.vec("p", d + 2, -2, 2, kind=kind))
    f = c.db.DerivativeFilter(derivative=d, order=order)
    n = order + outputs
    x = [horner(p, t) for t in range(n)]
    y = f.filter(list(x) if aslist else c.arr(x, dict(f=float, c=complex, i=int)[kind]))
    c.check(len(y) == n, "length")
    q = deriv(p, d)
    for k in range(order, n):
        c.close(y[k], horner(q, k - order / 2.0), 1e-6, "derivative")


def long(c, d, order, n, split):
    """many samples of a polynomial"""
    p = list(c.vec("p", d + 1, -2, 2))
    f = c.db.DerivativeFilter(derivative=d, order=order)
    x = [horner(p, t) for t in range(n)]
    y = list(f.filter(c.arr(x[:split]))) + list(f.filter(c.arr(x[split:])))
    c.check(len(y) == n, "length")
    q = deriv(p, d)
    for k in range(order, n):
        c.close(y[k], horner(q, k - order / 2.0), 1e-6 if d < 3 else 1e-4, "derivative")


def constant(c, d, order, kind):
    v = list(c.vec("v", 1, kind=kind))[0]
    x = c.vec("x", 2, kind=kind)
    f = c.db.DerivativeFilter(derivative=d, order=order)
    f.filter(x)
    f.reset(v)
    c.close(list(f.filter(c.arr([v] * 3, dict(f=float, c=complex, i=int)[kind]))), [0.0] * 3, 1e-9, "derivative of a constant")


def unsupported(c):
    for d in range(-1, 6):
        for o in range(-1, 11):
            ok = True
            try:
                c.db.DerivativeFilter(derivative=d, order=o)
            except ValueError:
                ok = False
            c.check(ok == ((d, o) in PAIRS), "supported derivatives and orders")


def instances(tier):
    out = []
    n = 8 if tier == "thorough" else 3
    for d, o in PAIRS:
        for kind in "fci":
            out.append(dict(name="derivative %d order %d %s" % (d, o, kind), fn="exact", kw=dict(d=d, order=o, kind=kind, outputs=n)))
        out.append(dict(name="derivative %d order %d list" % (d, o), fn="exact", kw=dict(d=d, order=o, kind="f", outputs=2, aslist=True)))
        out.append(dict(name="constant %d order %d" % (d, o), fn="constant", kw=dict(d=d, order=o, kind="fci"[o % 3])))
    for d, o, n, split in ((1, 1, 600, 520), (1, 4, 300, 258), (2, 2, 300, 1), (2, 8, 200, 100), (3, 4, 100, 70), (3, 8, 140, 130)):
        out.append(dict(name="long %d order %d n %d split %d" % (d, o, n, split), fn="long", kw=dict(d=d, order=o, n=n, split=split)))
    out.append(dict(name="supported pairs", fn="unsupported", kw={}))
    return out
