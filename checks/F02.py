"""IIR filters realise y[n] = sum a[i] y[n-i] + sum b[i] x[n-i]."""
from checks.lib import iir, mixed

BOUNDS = "recursive and forward coefficient counts 1..4, explicit zero state up to 5, signal length 1..5 (thorough 7), one or two calls; recursive coefficients in [-1, 1], others in [-4, 4], real, complex or integer; long instances (see the instance list) have a few symbolic values among listed ones"
ASSUMPTIONS = ["real arithmetic, with the accumulated binary64 rounding error bounded separately and added to the tolerance", "the filter starts from rest"]


def equation(c, na, nb, nx, ka, kb, kx, ns=0, aslist=False, split=0):
    a = [0] + list(c.vec("a", na - 1, -1, 1, kind=ka)) if na else []
    b = list(c.vec("b", nb, kind=kb))
    x = list(c.vec("x", nx, kind=kx))
    kind = dict(f=float, c=complex, i=int)
    fa, fb, fx = (a, b, x) if aslist else (c.arr(a, kind[ka]), c.arr(b, kind[kb]), c.arr(x, kind[kx]))
    k = dict(b=fb)
    if na:
        k["a"] = fa
    if ns:
        k["s"] = c.np.zeros(ns)
    f = c.db.IirFilter(**k)
    y = list(f.filter(fx[:split])) + list(f.filter(fx[split:])) if split else list(f.filter(fx))
    c.check(len(y) == nx, "length")
    c.close(y, iir(a, b, x), 1e-8, "y")


def long(c, a, nb, nx, kx, split=0):
    """long signals and many coefficients, symbolic samples among listed ones"""
    b = mixed(c, "b", nb, (0,), "f")
    x = mixed(c, "x", nx, (0, nx // 2, -1), kx)
    T = dict(f=float, c=complex, i=int)[kx]
    f = c.db.IirFilter(a=c.arr(a), b=c.arr(b))
    y = list(f.filter(c.arr(x[:split], T))) + list(f.filter(c.arr(x[split:], T))) if split else list(f.filter(c.arr(x, T)))
    c.check(len(y) == nx, "length")
    c.close(y, iir(a, b, x), 1e-7, "y")


def instances(tier):
    out = []

    def add(**k):
        n = "eq a%d%s b%d%s x%d%s%s%s%s" % (k["na"], k["ka"], k["nb"], k["kb"], k["nx"], k["kx"], " list" if k.get("aslist") else "",
                                            " split%d" % k["split"] if k.get("split") else "", " s%d" % k["ns"] if k.get("ns") else "")
        out.append(dict(name=n, fn="equation", kw=k, bounds=n))
    for na, nb, nx in ((2, 1, 4), (2, 2, 4), (3, 2, 4), (2, 3, 4), (3, 3, 4), (1, 3, 3), (0, 2, 3), (4, 1, 5)):
        for ka in "fci":
            for kb in "fci":
                for kx in "fc" if (ka, kb) != ("f", "f") else "fci":
                    if na >= 3 and nb >= 3 and (ka, kb, kx).count("c") > 1:
                        continue
                    add(na=na, nb=nb, nx=nx, ka=ka, kb=kb, kx=kx)
    for kx in "fci":
        add(na=2, nb=2, nx=4, ka="f", kb="f", kx=kx, aslist=True)
        add(na=2, nb=2, nx=4, ka="i", kb="i", kx=kx, aslist=True)
        add(na=3, nb=2, nx=5, ka="f", kb="f", kx=kx, split=2)
        add(na=2, nb=2, nx=4, ka="f", kb="f", kx=kx, ns=5)
        add(na=2, nb=3, nx=4, ka="f", kb="f", kx=kx, ns=2)
    wide = [0.0] + [(-1.0) ** k * 0.5 / k for k in range(1, 20)]
    for a, nb, nx, kx, split in (([0.0, 1.25, -0.5], 3, 300, "f", 0), ([0.0, 0.5], 2, 600, "f", 520), ([0.0, -0.75, 0.125], 2, 280, "c", 0), ([0.0, 0.5], 4, 270, "i", 257), (wide, 25, 60, "f", 0), (wide, 12, 60, "f", 30), ([0.0], 30, 60, "f", 0)):
        k = dict(a=a, nb=nb, nx=nx, kx=kx, split=split)
        out.append(dict(name="long a%d b%d x%d%s split%d" % (len(a), nb, nx, kx, split), fn="long", kw=k))
    if tier == "thorough":
        for kx in "fc":
            add(na=4, nb=4, nx=6, ka="f", kb="f", kx=kx)
            add(na=5, nb=3, nx=6, ka="f", kb="f", kx=kx, split=3)
            add(na=3, nb=3, nx=7, ka="f", kb="f", kx=kx)
    return out
