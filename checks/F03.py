"""A reset starts a filter in the steady state of a constant signal."""
from checks.lib import total

BOUNDS = "coefficient counts 1..4, 1..4 samples after the reset, arbitrary earlier samples; values symbolic, real or complex; designed filters as listed"
ASSUMPTIONS = ["IIR: unity gain at zero frequency, and b[0] and the sum of a at least 0.1 away from 1", "real arithmetic"]


def fir(c, nb, nx, kb, kv, before=0):
    b = c.vec("b", nb, kind=kb)
    v = c.complex("v") if kv == "c" else c.int("v", -4, 4) if kv == "i" else c.real("v")
    f = c.db.FirFilter(b=b)
    if before:
        f.filter(c.vec("w", before))
    f.reset(v)
    y = f.filter([v] * nx)
    c.close(list(y), [total(list(b)) * v] * nx, 1e-9, "steady")


def iir_complex(c, n, nx, kv):
    """complex coefficients"""
    a = list(c.vec("a", n - 1, -1, 1, kind="c"))
    b = list(c.vec("b", n - 1, -2, 2, kind="c"))
    sa = total(a)
    c.assume(1.0 - sa.real >= 0.1)
    c.assume(1.0 - b[0].real >= 0.1)
    b = b + [1.0 - sa - total(b)]
    v = c.complex("v") if kv == "c" else c.int("v", -4, 4) if kv == "i" else c.real("v")
    f = c.db.IirFilter(a=c.arr([0.0] + a, complex), b=c.arr(b, complex))
    f.reset(v)
    c.close(list(f.filter([v] * nx)), [v] * nx, 1e-6, "steady")


def iir(c, n, nx, kv, before=0):
    a = c.vec("a", n - 1, -1, 1)
    b = list(c.vec("b", n - 1, -2, 2))
    sa = total(list(a))
    c.assume(abs(1.0 - sa) >= 0.1)
    c.assume(abs(1.0 - b[0]) >= 0.1)
    b = b + [1.0 - sa - total(b)]
    v = c.complex("v") if kv == "c" else c.int("v", -4, 4) if kv == "i" else c.real("v")
    f = c.db.IirFilter(a=c.arr([0.0] + list(a)), b=c.arr(b))
    if before:
        f.filter(c.vec("w", before))
    f.reset(v)
    y = f.filter([v] * nx)
    c.close(list(y), [v] * nx, 1e-6, "steady")


def designed(c, cls, kw, nx, kv):
    f = getattr(c.db, cls)(**kw)
    v = c.complex("v") if kv == "c" else c.real("v")
    f.filter(c.vec("w", 2))
    f.reset(v)
    y = f.filter([v] * nx)
    g = 1.0
    if cls == "FirFilter":
        g = float(sum(float(t) for t in f.b))
    c.close(list(y), [g * v] * nx, 1e-6, "steady")


def rank(c, order, index, nx):
    f = c.db.RankFilter(index=index, order=order)
    v = c.real("v")
    f.filter(c.vec("w", 2))
    f.reset(v)
    c.close(list(f.filter([v] * nx)), [v] * nx, 1e-12, "steady")


def instances(tier):
    out = []
    for nb in (1, 2, 4):
        for kb in "fci":
            for kv in "fci":
                out.append(dict(name="fir b%d%s %s" % (nb, kb, kv), fn="fir", kw=dict(nb=nb, nx=3, kb=kb, kv=kv, before=nb - 1)))
    for n in (2, 3) + ((4,) if tier == "thorough" else ()):
        for kv in "fci":
            for before in (0, 2):
                out.append(dict(name="iir n%d %s before%d" % (n, kv, before), fn="iir", kw=dict(n=n, nx=2 if n > 2 else 3, kv=kv, before=before)))
    for n, nx in ((2, 3), (3, 2)):
        for kv in "fc":
            out.append(dict(name="iir complex n%d %s" % (n, kv), fn="iir_complex", kw=dict(n=n, nx=nx, kv=kv)))
    for k, (cls, kw) in enumerate((("FirFilter", dict(style="Kaiser", frequency=0.2, order=8)), ("FirFilter", dict(style="Hann", frequency=0.4, order=6, gain=2.0)),
                                   ("IirFilter", dict(style="Butterworth", frequency=0.2, order=3)), ("IirFilter", dict(style="Chebyshev", frequency=0.3, order=4)),
                                   ("IirFilter", dict(style="Bessel", frequency=0.25, order=4)))):
        for kv in "fc":
            out.append(dict(name="%s %s order %d %s" % (cls, kw["style"], kw["order"], kv), fn="designed", kw=dict(cls=cls, kw=kw, nx=5, kv=kv)))
    for order in (0, 2, 3):
        for index in range(order + 1):
            out.append(dict(name="rank %d of %d" % (index, order), fn="rank", kw=dict(order=order, index=index, nx=3)))
    return out
