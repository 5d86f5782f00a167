"""FIR filters realise the difference equation y[n] = sum b[i] x[n-i]."""

from checks.lib import fir, mixed

BOUNDS = "coefficient count 1..4, state length 0..5, signal length 1..5 (thorough 6..8), one or two calls; coefficients, states and samples symbolic in [-4, 4], real, complex or integer; long instances (see the instance list) have a few symbolic values among listed ones"
ASSUMPTIONS = ["real arithmetic, with the accumulated binary64 rounding error bounded separately and added to the tolerance"]


def equation(c, nb, ns, nx, kb, ks, kx, aslist=False, split=0):
    b = c.vec("b", nb, kind=kb)
    s = c.vec("s", ns, kind=ks) if ns else None
    x = c.vec("x", nx, kind=kx)
    fb = list(b) if aslist else b
    fx = list(x) if aslist else x
    bs, ss, xs = list(b), list(s) if ns else [], list(x)
    f = c.db.FirFilter(b=fb, s=s) if ns else c.db.FirFilter(b=fb)
    if split:
        y = list(f.filter(fx[:split])) + list(f.filter(fx[split:]))
    else:
        y = f.filter(fx)
    c.check(len(y) == nx, "length")
    c.close(list(y), fir(bs, ss, xs), 1e-9, "y")


def long(c, nb, nx, kb, kx, split=0):
    """many coefficients or samples, symbolic ones among listed ones"""
    b = mixed(c, "b", nb, (0, 1, -1) if nx < 200 else (0,), kb)
    x = mixed(c, "x", nx, (0, 1, nx // 2, -2, -1), kx)
    f = c.db.FirFilter(b=c.arr(b, dict(f=float, c=complex, i=int)[kb]))
    T = dict(f=float, c=complex, i=int)[kx]
    y = list(f.filter(c.arr(x[:split], T))) + list(f.filter(c.arr(x[split:], T))) if split else list(f.filter(c.arr(x, T)))
    c.check(len(y) == nx, "length")
    c.close(y, fir(b, [], x), 1e-9, "y")


def instances(tier):
    out = []

    def add(**k):
        n = "eq b%d%s s%d%s x%d%s%s%s" % (k["nb"], k["kb"], k["ns"], k["ks"], k["nx"], k["kx"], " list" if k.get("aslist") else "", " split%d" % k["split"] if k.get("split") else "")
        out.append(dict(name=n, fn="equation", kw=k, bounds=n))
    for nb, ns, nx in ((1, 0, 3), (2, 0, 4), (3, 2, 4), (3, 3, 3), (2, 5, 4), (4, 3, 5)):
        for kb in "fci":
            for kx in "fci":
                for ks in ("f", "c") if ns and kb == "c" else "f":
                    add(nb=nb, ns=ns, nx=nx, kb=kb, ks=ks, kx=kx)
    for kb in "fci":
        for kx in "fci":
            add(nb=3, ns=0, nx=4, kb=kb, ks="f", kx=kx, aslist=True)
            add(nb=3, ns=2, nx=4, kb=kb, ks="f", kx=kx, split=2)
    for nb, nx, kb, kx, split in ((40, 60, "f", "f", 0), (65, 130, "f", "f", 64), (40, 60, "c", "f", 20), (3, 600, "f", "f", 0), (2, 1100, "f", "f", 1030), (3, 300, "f", "c", 0), (3, 300, "i", "i", 256)):
        k = dict(nb=nb, nx=nx, kb=kb, kx=kx, split=split)
        out.append(dict(name="long " + " ".join("%s %s" % t for t in k.items()), fn="long", kw=k))
    if tier == "thorough":
        for kb in "fc":
            for kx in "fc":
                add(nb=6, ns=4, nx=8, kb=kb, ks="f", kx=kx)
                add(nb=8, ns=0, nx=8, kb=kb, ks="f", kx=kx, split=3)
    return out
