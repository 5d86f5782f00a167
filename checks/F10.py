"""PID output combines value, limited integral and difference."""
from checks.lib import mixed

BOUNDS = "signals of 1..5 samples in one or two calls (thorough 6), gains in [-4, 4], limit in [0, 12], real, complex and integer values; long instances (see the instance list) have a few symbolic values among listed ones"
ASSUMPTIONS = ["real arithmetic, with the accumulated binary64 rounding error bounded separately where finite", "the limit is assigned before the first sample"]
T = dict(f=float, c=complex, i=int)


def feed(c, f, x, kind, split):
    y = list(f.filter(c.arr(x[:split] if split else x, T[kind])))
    return y + list(f.filter(c.arr(x[split:], T[kind]))) if split else y


def free(c, n, kb, kx, split=0, aslist=False):
    b, x = list(c.vec("b", 3, kind=kb)), list(c.vec("x", n, kind=kx)) if n < 20 else mixed(c, "x", n, (0, 1, n // 2, -1), kx)
    f = c.db.PidFilter(b=b if aslist else c.arr(b, T[kb]))
    y = list(f.filter(list(x))) if aslist else feed(c, f, x, kx, split)
    c.check(len(y) == n, "length")
    t = 0.0
    for k in range(n):
        t = t + x[k]
        c.close(y[k], b[0] * x[k] + b[1] * t + b[2] * (x[k] - (x[k - 1] if k else 0.0)), 1e-9 * max(n, 20) / 20, "output")


def limited(c, n, kx, split=0, gains=True):
    b = list(c.vec("b", 3)) if gains else [0.0, 1.0, 0.0]
    x = list(c.vec("x", n, kind=kx))
    lim = c.real("limit", 0, 12)
    f, g = c.db.PidFilter(b=b), c.db.PidFilter(b=[0.0, 1.0, 0.0])
    f.limit = lim
    g.limit = lim
    c.close(f.limit, lim, 0.0, "limit")
    y, s = feed(c, f, x, kx, split), feed(c, g, x, kx, split)
    for k in range(n):
        if gains:
            c.close(y[k], b[0] * x[k] + b[1] * s[k] + b[2] * (x[k] - (x[k - 1] if k else 0.0)), 1e-8, "output")
        if kx == "c":
            c.check((s[k] * s[k].conjugate()).real <= lim * lim + 1e-9, "integral within the limit")
            t = (s[k - 1] if k else 0.0) + x[k]
            below = (t * t.conjugate()).real < lim * lim - 1e-9
        else:
            c.check(abs(s[k]) <= lim + 1e-9, "integral within the limit")
            t = (s[k - 1] if k else 0.0) + x[k]
            below = abs(t) < lim
        d = s[k] - t
        c.check(c.implies(below, c.all([abs(d.real) <= 1e-9, abs(d.imag) <= 1e-9] if kx == "c" else [abs(d) <= 1e-9])), "accumulates while the sum stays below the limit")


def instances(tier):
    out = []
    th = tier == "thorough"
    for n in (1, 3, 5):
        for kb in "fci":
            for kx in "fci":
                out.append(dict(name="free n%d b%s x%s" % (n, kb, kx), fn="free", kw=dict(n=n, kb=kb, kx=kx)))
    for kx in "fci":
        out.append(dict(name="free two calls x%s" % kx, fn="free", kw=dict(n=4, kb="f", kx=kx, split=2)))
        out.append(dict(name="free list x%s" % kx, fn="free", kw=dict(n=3, kb="f", kx=kx, aslist=True)))
    for n, kx, split in ((300, "f", 0), (600, "f", 520), (260, "c", 0), (260, "i", 256)):
        out.append(dict(name="long n%d x%s split %d" % (n, kx, split), fn="free", kw=dict(n=n, kb="f", kx=kx, split=split)))
    for n in (1, 2, 3) + ((4,) if th else ()):
        out.append(dict(name="limited n%d" % n, fn="limited", kw=dict(n=n, kx="f")))
    out.append(dict(name="limited integral n4", fn="limited", kw=dict(n=4, kx="f", gains=False)))
    out.append(dict(name="limited integral n4 integers", fn="limited", kw=dict(n=4, kx="i", gains=False)))
    out.append(dict(name="limited two calls", fn="limited", kw=dict(n=3, kx="f", split=1)))
    out.append(dict(name="limited integral n2 complex", fn="limited", kw=dict(n=2, kx="c", gains=False)))
    if th:
        out.append(dict(name="limited integral n6", fn="limited", kw=dict(n=6, kx="f", gains=False)))
    return out
