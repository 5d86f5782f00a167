"""Frequency response, group delay and roots of FIR and IIR filters."""
import math

from checks.lib import cis

BOUNDS = ("response and delay: every labelled frequency for lengths 1..9 (thorough 16), counts 1..7, coefficient counts 1..4, real or complex coefficients in [-4, 4], recursive ones in [-0.45, 0.45]; "
          "roots: degrees 0..3 with counts 1..3")
ASSUMPTIONS = ["real arithmetic, with the accumulated binary64 rounding error bounded separately where finite",
               "delays at frequencies where the transfer function is smaller than 0.05 are not compared",
               "numpy.roots returns the roots of the polynomial in any order; sorting short arrays is stable"]


def prepare(c, na, nb, ka, kb):
    a = [0.0] + list(c.vec("a", na - 1, -0.45 if na < 3 else -0.3, 0.45 if na < 3 else 0.3, kind=ka)) if na else []
    b = list(c.vec("b", nb, kind=kb))
    t = dict(f=float, c=complex)
    if na:
        f = c.db.IirFilter(a=c.arr(a, t[ka]), b=c.arr(b, t[kb]))
    else:
        f = c.db.FirFilter(b=c.arr(b, t[kb]))
    n = max(na, nb)
    return f, a + [0.0] * (n - len(a)), b + [0.0] * (n - len(b))


def labels(c, f, n):
    c.check(len(f) == n, "one label per value")
    c.close(list(f), [-1.0 + 2.0 * k / n for k in range(n)], 1e-9, "evenly spaced frequencies")


def poly(v, f):
    """sum v[k] exp(-j pi f k)"""
    t = 0.0
    for k, x in enumerate(v):
        t = t + x * cis(-f * k)
    return t


def response(c, na, nb, ka, kb, n, count):
    f, a, b = prepare(c, na, nb, ka, kb)
    y, g = f.response(n, count) if (n, count) != (8192, 1) else f.response()
    labels(c, g, n)
    c.check(len(y) == n, "one value per label")
    for k, v in enumerate(list(y)):
        w = -1.0 + 2.0 * k / n
        num, den = poly(b, w), (poly([1.0] + [-t for t in a[1:]], w) if na else 1.0)
        r = num / den if na else num
        t = r
        for _ in range(count - 1):
            t = t * r
        c.close(v, t, 1e-7 * 16 ** (count - 1), "response")


def delay(c, na, nb, ka, kb, n, count):
    f, a, b = prepare(c, na, nb, ka, kb)
    d = [1.0] + [-t for t in a[1:]] if na else [1.0]
    at = [-1.0 + 2.0 * k / n for k in range(n)]
    for w in at:
        p = poly(b, w)
        c.assume(abs(p) ** 2 >= 0.05 ** 2)
    y, g = f.delay(n, count)
    labels(c, g, n)
    c.check(len(y) == n, "one value per label")
    for k, v in enumerate(list(y)):
        if not na and n > 2 and k == 0:
            continue        # extrapolated from its neighbours
        w = at[k]
        # -d(phase)/d(omega) = Re(sum k b z^k / sum b z^k) - Re(sum k a z^k / sum a z^k)
        p, dp = poly(b, w), poly([i * t for i, t in enumerate(b)], w)
        q, dq = poly(d, w), poly([i * t for i, t in enumerate(d)], w)
        m, u = abs2(p), abs2(q)
        t = ((dp * conj(p)).real * u - (dq * conj(q)).real * m) / (m * u) if na else (dp * conj(p)).real / m
        c.close(v, t * count, 1e-6, "delay")
    if not na and n > 2:
        c.close(y[0], y[1] * 2.0 - y[2], 1e-6, "first delay extrapolated")


def conj(z):
    return z.conjugate()


def abs2(z):
    return z.real * z.real + z.imag * z.imag


def roots(c, na, nb, ka, kb, count):
    if c.symbolic:
        c.st.sort_branch = True
    f, a, b = prepare(c, na, nb, ka, kb)
    if kb == "c":
        c.assume(abs2(b[0]) >= 0.25)
    p, z = f.roots(count) if count > 1 else f.roots()
    if na:
        polynomial(c, list(p), [1.0] + [-t for t in a[1:]], count, "poles")
    else:
        c.close(list(p), [0.0] * (count * (nb - 1)), 0.0, "poles at zero")
    polynomial(c, list(z), b, count, "zeros", kb == "c")


def polynomial(c, r, v, count, label, monic=False):
    lead = 0
    while lead < len(v) and bool(v[lead] == 0):
        lead += 1
    v = v[lead:]
    c.check(len(r) == count * max(len(v) - 1, 0), label + " count")
    if not v:
        return
    p, q = [1.0], [1.0]
    for t in r:
        p = [x - t * y for x, y in zip(p + [0.0], [0.0] + p)]
    for _ in range(count):
        w = [0.0] * (len(q) + len(v) - 1)
        for i, x in enumerate(q):
            for j, y in enumerate(v):
                w[i + j] = w[i + j] + x * y
        q = w
    # prod (t - r) times the leading coefficient is the polynomial to the count; relative to the leading coefficient where that is small
    big = 4.0 ** count * 64
    for k in range(1, len(q)):
        if monic:
            c.close(p[k], q[k] / q[0], 1e-6 * big, label + " are the roots")
        else:
            c.close(p[k] * q[0], q[k], 1e-6 * big, label + " are the roots")
    for x, y in zip(r, r[1:]):
        c.check(abs(x) <= abs(y) + 1e-9, label + " in order of magnitude")


def instances(tier):
    out = []

    def add(fn, **k):
        n = fn + " " + " ".join("%s%s" % t for t in k.items())
        if n not in [o["name"] for o in out]:
            out.append(dict(name=n, fn=fn, kw=k, bounds=n, timeout_ms=60000))
    th = tier == "thorough"
    for n in (1, 2, 3, 4, 5, 8, 9) + ((16, 15) if th else ()):
        add("response", na=0, nb=3, ka="f", kb="f", n=n, count=1)
        add("response", na=2, nb=2, ka="f", kb="f", n=n, count=1)
        add("delay", na=0, nb=3, ka="f", kb="f", n=n, count=1)
    for kb in "fc":
        for count in (1, 2, 3):
            add("response", na=0, nb=2, ka="f", kb=kb, n=4, count=count)
            add("response", na=2, nb=2, ka="f", kb=kb, n=3, count=count)
    for count in (4, 5, 7):
        add("response", na=0, nb=2, ka="f", kb="f", n=4, count=count)
        add("delay", na=0, nb=2, ka="f", kb="f", n=4, count=count)
    add("response", na=2, nb=1, ka="f", kb="f", n=3, count=5)
    add("roots", na=2, nb=2, ka="f", kb="f", count=5)
    add("response", na=0, nb=4, ka="f", kb="f", n=5, count=2)
    add("response", na=3, nb=2, ka="f", kb="f", n=4, count=1)
    add("response", na=2, nb=3, ka="f", kb="f", n=4, count=2)
    add("response", na=2, nb=2, ka="c", kb="f", n=3, count=1)
    add("delay", na=0, nb=2, ka="f", kb="f", n=4, count=3)
    add("delay", na=0, nb=2, ka="f", kb="c", n=3, count=2)
    add("delay", na=0, nb=1, ka="f", kb="f", n=2, count=2)
    for n in (1, 2, 3, 4, 5, 6):
        add("delay", na=2, nb=1, ka="f", kb="f", n=n, count=1)
    add("delay", na=2, nb=2, ka="f", kb="f", n=3, count=2)
    add("delay", na=2, nb=2, ka="f", kb="f", n=4, count=1)
    for nb in (1, 2, 3):
        for count in (1, 2, 3):
            add("roots", na=0, nb=nb, ka="f", kb="f", count=count)
    add("roots", na=2, nb=2, ka="f", kb="f", count=1)
    add("roots", na=2, nb=2, ka="f", kb="f", count=2)
    add("roots", na=3, nb=1, ka="f", kb="f", count=1)
    add("roots", na=3, nb=1, ka="f", kb="f", count=2)
    add("roots", na=0, nb=2, ka="f", kb="c", count=2)
    add("roots", na=0, nb=3, ka="f", kb="c", count=1)
    return out
