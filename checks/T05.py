"""Z transform maps poles and zeros and keeps unity gain at zero frequency."""
import math

from checks.lib import total

BOUNDS = ("bilinear: symbolic coefficients of denominators up to order 2 and numerators up to the same order, symbolic frequency in [0.05, 2], concrete Bessel, Butterworth and Chebyshev-like denominators of order 3..6 with symbolic gain and frequency; "
          "impulse invariance: symbolic poles (real or conjugate pairs), residues and frequency for orders 1 and 2, listed concrete polynomials of order 1..4 at listed frequencies")
ASSUMPTIONS = ["the last coefficients of numerator and denominator (the behaviour at zero frequency) and the leading ones are at least 0.1 in magnitude, coefficients lie in [-4, 4]",
               "no pole or zero within reach of the mapped point at infinity: leading z-domain coefficients at least 0.05 in magnitude",
               "impulse invariance with repeated poles or a direct term is not claimed"]


def zpoly(c, u, h):
    """the z-domain polynomial, highest power first, with roots (1 + h s) / (1 - h s) of the roots s of u"""
    n = len(u) - 1
    out = [0.0] * (n + 1)
    for k in range(n + 1):
        # u[k] s**(n - k) with s = (z - 1) / (h (z + 1)), times (h (z + 1))**n
        t = [u[k] * h ** k]
        for _ in range(n - k):
            t = [a - b for a, b in zip(t + [0.0], [0.0] + t)]
        for _ in range(k):
            t = [a + b for a, b in zip(t + [0.0], [0.0] + t)]
        out = [a + b for a, b in zip(out, t)]
    return out


def coefs(c, name, n, lo=-4, hi=4, kind="f"):
    v = list(c.vec(name, n + 1, lo, hi, kind=kind))
    c.assume(abs(v[0]) >= 0.1)
    if n:
        c.assume(abs(v[-1]) >= 0.1)
    return v


def mapped(c, roots, h):
    """monic z-domain polynomial with roots (1 + h s) / (1 - h s)"""
    t = [1.0]
    for s in roots:
        z = (1.0 + h * s) / (1.0 - h * s)
        t = [p + q for p, q in zip(t + [0.0], [0.0] + [-(z * w) for w in t])]
    return [w.real for w in t]


def verify(c, a, b, d, num, tol=1e-6, gain=True):
    """d: z-domain denominator; num: numerator, both with leading coefficient one; shorter ones padded with roots at the origin"""
    n = len(d) - 1
    c.check(len(a) == n + 1 and len(b) == n + 1, "lengths")
    c.check(a[0] == 0.0, "zero first recursive coefficient")
    for k in range(1, n + 1):
        c.close(a[k], -d[k], tol, "poles mapped")
    num = list(num) + [0.0] * (n + 1 - len(num))
    g = (1.0 - total(a)) / total(num)
    for k in range(n + 1):
        # the numerator with unity gain at zero frequency
        c.close(b[k], num[k] * g, tol, "zeros mapped, unity gain at zero frequency")
    if gain:
        c.close(total(b), 1.0 - total(a), tol, "unity gain at zero frequency")


def rooted(c, name, n, conj, h, lo=-2, hi=2):
    """coefficients of a polynomial with symbolic roots and a symbolic factor, and its roots"""
    k = c.real(name + ".k", -3, 3)
    c.assume(abs(k) >= 0.2)
    r = []
    if n == 1:
        p = c.real(name + ".p", lo, hi)
        c.assume(abs(p) >= 0.1)
        w, r = [1.0, -p], [p]
    elif conj:
        x, y = c.real(name + ".x", lo, hi), c.real(name + ".y", 0.1, 2)
        w, r = [1.0, -2.0 * x, x * x + y * y], [x + 1j * y, x - 1j * y]
    elif n == 2:
        p, q = c.real(name + ".p", lo, hi), c.real(name + ".q", lo, hi)
        c.assume(p >= q)
        c.assume(abs(p) >= 0.1)
        c.assume(abs(q) >= 0.1)
        w, r = [1.0, -(p + q), p * q], [p, q]
    else:
        w = [1.0]
    for s in r:
        c.assume(abs(1.0 - h * s.real) >= 0.05)
    return [k * t for t in w], r


def bilinear2(c, n, m, uc, vc, freq=None, hi=2):
    """as bilinear, with the polynomials built from their roots"""
    f = c.real("f", 0.05, 2) if freq is None else freq
    h = 0.5 * math.pi * f
    u, p = rooted(c, "u", n, uc, h, -2, hi)
    v, z = rooted(c, "v", m, vc, h)
    d, num = mapped(c, p, h), mapped(c, z, h)
    c.assume(abs(total(num)) >= 0.05)
    a, b = c.db.ZTransform.transform(u=c.arr(u), v=c.arr(v), frequency=f)
    verify(c, a, b, d, num, gain=m == 0)


def bilinear(c, n, m, kind="f", form="array", lead=0, freq=None, default=False):
    f = c.real("f", 0.05, 2) if freq is None else freq
    u, v = coefs(c, "u", n, kind=kind), coefs(c, "v", m, kind=kind)
    h = 0.5 * math.pi * f
    d, num = zpoly(c, u, h), zpoly(c, v, h)
    c.assume(abs(d[0]) >= 0.05)
    c.assume(abs(num[0]) >= 0.05)
    T = dict(f=float, i=int)[kind]
    ua, va = [0.0] * lead + list(u), [0.0] * lead + list(v)
    if form == "array":
        ua, va = c.arr(ua, T), c.arr(va, T)
    Z = c.db.ZTransform.transform
    a, b = Z(ua, va, f) if default else Z(u=ua, v=va, frequency=f, bilinear=True)
    c.close(list(ua), [0.0] * lead + list(u), 0.0, "denominator unchanged")
    c.close(list(va), [0.0] * lead + list(v), 0.0, "numerator unchanged")
    verify(c, a, b, [t / d[0] for t in d], [t / num[0] for t in num])


def designs(c, u, m):
    """concrete denominators, symbolic frequency and gain"""
    f = c.real("f", 0.05, 1.0)
    g = c.real("g", 0.1, 4)
    h = 0.5 * math.pi * f
    v = [g] if m == 0 else [g, g * 2.0]
    import numpy
    p = [complex(t) if abs(t.imag) > 1e-12 else float(t.real) for t in numpy.roots(u)]
    a, b = c.db.ZTransform.transform(c.arr(u), c.arr(v), f)
    verify(c, a, b, mapped(c, p, h), mapped(c, [-2.0] if m else [], h), 1e-6, gain=False)


def stable(c, n):
    """left half-plane poles map inside the unit circle"""
    u = list(c.vec("u", n + 1, 0.1, 4))
    f = c.real("f", 0.05, 2)
    a, b = c.db.ZTransform.transform(c.arr(u), c.arr([1.0]), f)
    if n == 1:
        c.check(abs(a[1]) < 1.0, "stable")
    else:
        c.check(abs(a[2]) < 1.0, "stable")
        c.check(c.both(1.0 - a[1] - a[2] > 0.0, 1.0 + a[1] - a[2] > 0.0), "stable")


def scaling(c, n, m, bilin, freq=None):
    f = c.real("f", 0.05, 2) if freq is None else freq
    u, v = coefs(c, "u", n), coefs(c, "v", m)
    k, q = c.real("k", -3, 3), c.real("q", -3, 3)
    c.assume(abs(k) >= 0.2)
    c.assume(abs(q) >= 0.2)
    h = 0.5 * math.pi * f
    c.assume(abs(zpoly(c, u, h)[0]) >= 0.05)
    c.assume(abs(zpoly(c, v, h)[0]) >= 0.05)
    if not bilin:
        c.stub("scipy.signal.residue", residue1(c))
    Z = c.db.ZTransform.transform
    a, b = Z(c.arr(u), c.arr(v), f, bilin)
    e, g = Z(c.arr([k * t for t in u]), c.arr([q * t for t in v]), f, bilin)
    c.close(list(a), list(e), 1e-6, "recursive coefficients do not change with a scale")
    c.close(list(b), list(g), 1e-6, "forward coefficients do not change with a scale")


def residue1(c):
    def residue(b, a, tol=1e-3, rtype="avg"):
        c.check(len(a) == 2 and len(b) == 1, "partial fractions of the arguments")
        return c.arr([b[0] / a[0]]), c.arr([-(a[1] / a[0])]), c.arr([])
    return residue


def pexp(c, p, f):
    return c.np.exp(p * (math.pi * f))


def impulse1(c):
    f = c.real("f", 0.05, 2)
    u = coefs(c, "u", 1)
    v = coefs(c, "v", 0)
    # the exponential of a pole at zero frequency divides by zero
    c.assume(abs(u[1]) >= 0.1)
    c.stub("scipy.signal.residue", residue1(c))
    a, b = c.db.ZTransform.transform(c.arr(u), c.arr(v), f, False)
    c.check(len(a) == 2, "lengths")
    c.check(a[0] == 0.0, "zero first recursive coefficient")
    c.close(a[1], pexp(c, -(u[1] / u[0]), f), 1e-9, "pole mapped")
    c.close(total(b), 1.0 - total(a), 1e-9, "unity gain at zero frequency")
    c.close(list(b)[1:], [0.0] * (len(b) - 1), 1e-9, "impulse response of one exponential")


def impulse2(c, conj, f):
    """two poles and residues, the polynomials built from them"""
    if conj:
        x, y = c.real("x", -1, -0.1), c.real("y", 0.2, 2)
        r, s = c.real("r", -2, 2), c.real("s", -2, 2)
        p, q = x + 1j * y, x - 1j * y
        rp, rq = r + 1j * s, r - 1j * s
        u = [1.0, -2.0 * x, x * x + y * y]
        v = [2.0 * r, -2.0 * (r * x + s * y)]
    else:
        p, q = c.real("p", -2, -0.1), c.real("q", -2, -0.1)
        c.assume(p - q >= 0.2)
        rp, rq = c.real("r", -2, 2), c.real("s", -2, 2)
        u = [1.0, -(p + q), p * q]
        v = [rp + rq, -(rp * q + rq * p)]
    c.assume(abs(v[0]) >= 0.1)
    c.assume(abs(v[1]) >= 0.1)
    seen = []

    def residue(b, a, tol=1e-3, rtype="avg"):
        seen.append(1)
        c.check(len(a) == 3 and len(b) == 2, "partial fractions of the arguments")
        c.close([t * u[-1] for t in a], [t * a[2] for t in u], 1e-6, "partial fractions of the arguments")
        k = a[0]
        c.close([t for t in b], [t * k for t in v], 1e-6, "partial fractions of the arguments")
        return c.arr([rp, rq], complex), c.arr([p, q], complex), c.arr([])
    c.stub("scipy.signal.residue", residue)
    ep, eq = pexp(c, p, f), pexp(c, q, f)
    one = rp + rq
    two = -(rp * eq + rq * ep)
    if conj:
        one, two = one.real, two.real
    c.assume(abs(one + two) >= 0.05)
    a, b = c.db.ZTransform.transform(c.arr(u), c.arr(v), f, False)
    if not seen:
        c.cut()
    c.check(len(a) == 3 and len(b) == 3, "lengths")
    c.check(a[0] == 0.0, "zero first recursive coefficient")
    s1, s2 = ep + eq, ep * eq
    if conj:
        s1, s2 = s1.real, s2.real
    c.close([a[1], a[2]], [s1, -s2], 1e-6, "poles mapped")
    c.close(total(b), 1.0 - total(a), 1e-6, "unity gain at zero frequency")
    c.close([b[0] * two, b[2]], [b[1] * one, 0.0], 1e-6, "impulse response of the sum of exponentials")


def concrete(c, poles, zeros, f, bilin, su=1.0, sv=1.0):
    """listed poles and zeros with a symbolic gain, the real partial fractions"""
    def poly(r):
        t = [1.0 + 0j]
        for x in r:
            t = [a + b for a, b in zip(t + [0.0], [0.0] + [-x * y for y in t])]
        return [y.real for y in t]
    u, v = poly(poles), poly(zeros)
    a, b = c.db.ZTransform.transform(c.arr([su * t for t in u]), c.arr([sv * t for t in v]), f, bilin)
    n = len(poles)
    if bilin:
        h = 0.5 * math.pi * f
        d = poly([(1 + h * p) / (1 - h * p) for p in poles])
        num = poly([(1 + h * p) / (1 - h * p) for p in zeros]) + [0.0] * (n - len(zeros))
    else:
        import cmath
        e = [cmath.exp(p * math.pi * f) for p in poles]
        d = poly(e)
        num = [0.0] * n
        for i, p in enumerate(poles):
            r = 1.0
            for z in zeros:
                r = r * (p - z)
            for j, q in enumerate(poles):
                if j != i:
                    r = r / (p - q)
            t = [r]
            for j in range(n):
                if j != i:
                    t = [x + y for x, y in zip(t + [0.0], [0.0] + [-e[j] * w for w in t])]
            num = [x + y for x, y in zip(num, t)]
        num = [complex(t).real for t in num] + [0.0]
    x = list(c.vec("x", 3))
    g = (sum(d)) / sum(num)
    c.check(len(a) == n + 1 and len(b) == n + 1, "lengths")
    # the filter of the coefficients, for any signal
    from checks.lib import iir
    y = iir([float(t) for t in a], [float(t) for t in b], x)
    z = iir([0.0] + [-t for t in d[1:]], [t * g for t in num], x)
    c.close(y, z, 1e-6, "difference equation")
    c.close([float(t) for t in a], [0.0] + [-t for t in d[1:]], 1e-6, "poles mapped")
    c.close([float(t) for t in b], [t * g for t in num], 1e-6, "numerator")


def instances(tier):
    out = []

    def add(fn, **k):
        k2 = {a: ("%.3g" % b if isinstance(b, float) else "(%s)" % " ".join("%.3g" % complex(t).real + ("%+.3gj" % complex(t).imag if complex(t).imag else "") for t in b) if isinstance(b, (list, tuple)) else b) for a, b in k.items()}
        out.append(dict(name=fn + " " + " ".join("%s %s" % t for t in k2.items()), fn=fn, kw=k, budget=200))
    add("bilinear", n=1, m=0)
    add("bilinear", n=1, m=1)
    for uc in (True, False):
        add("bilinear2", n=2, m=0, uc=uc, vc=False)
        add("bilinear2", n=2, m=1, uc=uc, vc=False, freq=0.3)
        for vc in (True, False):
            add("bilinear2", n=2, m=2, uc=uc, vc=vc, freq=0.3)
    add("bilinear", n=1, m=0, kind="i", freq=0.25)
    add("bilinear", n=1, m=1, kind="i", form="list", freq=0.25)
    add("bilinear", n=1, m=1, lead=1, freq=0.4)
    add("bilinear", n=1, m=0, form="list", lead=2, default=True)
    for u in ([1.0, 2.0, 2.0, 1.0], [1.0, 6.0, 15.0, 15.0], [1.0, 2.6131259, 3.4142136, 2.6131259, 1.0], [2.0, 1.0, 3.0, 1.0, 0.5], [1.0, 10.0, 45.0, 105.0, 105.0]):
        add("designs", u=u, m=0)
        add("designs", u=u, m=1)
    add("stable", n=1)
    add("stable", n=2)
    add("scaling", n=1, m=0, bilin=True)
    add("scaling", n=1, m=1, bilin=True, freq=0.3)
    add("scaling", n=1, m=0, bilin=False)
    add("impulse1")
    for f in (0.1, 0.35, 1.0):
        add("impulse2", conj=True, f=f)
        add("impulse2", conj=False, f=f)
    P3 = [-1.0, -0.5 + 0.8j, -0.5 - 0.8j]
    P4 = [-0.3 + 1.1j, -0.3 - 1.1j, -0.9 + 0.2j, -0.9 - 0.2j]
    for bilin in (True, False):
        for f in (0.1, 0.4):
            add("concrete", poles=[-1.5], zeros=[], f=f, bilin=bilin)
            add("concrete", poles=[-0.4, -2.0], zeros=[-0.7], f=f, bilin=bilin)
            add("concrete", poles=P3, zeros=[-2.0], f=f, bilin=bilin)
            add("concrete", poles=P3, zeros=[-0.2 + 1.5j, -0.2 - 1.5j], f=f, bilin=bilin)
            add("concrete", poles=P4, zeros=[], f=f, bilin=bilin)
            add("concrete", poles=P4, zeros=[0.4], f=f, bilin=bilin)
            add("concrete", poles=P3, zeros=[-2.0], f=f, bilin=bilin, su=5e-4, sv=2e-5)
            add("concrete", poles=[-0.4, -2.0], zeros=[-0.7], f=f, bilin=bilin, su=-3e3, sv=4e4)
    return out
