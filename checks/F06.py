"""IIR designs: stability, gain, mirror, prototype and the candidate nearest to -3 dB."""
import math

import numpy

from checks.lib import total

BOUNDS = ("prototype polynomials of orders 1 to 12 of every style; search: orders 1 and 2, counts 1..2, arbitrary symbolic recursive candidates over 1..2 search steps (longer paths are cut after the assertions made so far, or continue with a fixed poor candidate), symbolic gain; "
          "designs: listed styles, orders 1..6, counts 1..3, frequencies, complement, with symbolic gain")
ASSUMPTIONS = ["in the search instances the s-domain to z-domain transform returns arbitrary stable recursive coefficients (its own behaviour is property T05)"]


def reference(style, order):
    """roots of the prototype polynomial, up to one common positive factor"""
    if style == "Butterworth":
        return numpy.array([numpy.exp(1j * math.pi * (2 * k + order - 1) / (2 * order)) for k in range(1, order + 1)])
    if style == "Chebyshev":
        e = math.sqrt(10.0 ** 0.0125 - 1.0)
        v = math.asinh(1.0 / e) / order
        th = [math.pi * (2 * k - 1) / (2 * order) for k in range(1, order + 1)]
        return numpy.array([-math.sinh(v) * math.sin(t) + 1j * math.cosh(v) * math.cos(t) for t in th])
    c = [math.factorial(2 * order - k) / (2.0 ** (order - k) * math.factorial(k) * math.factorial(order - k)) for k in range(order + 1)]
    return numpy.roots(c[::-1])


def prototype(c, style, order, u, v):
    u = [float(t) for t in u]
    c.check(len(u) == order + 1, "prototype order")
    ref = numpy.poly(reference(style, order)).real
    lam = (u[-1] / u[0] / ref[-1]) ** (1.0 / order)
    c.check(all(abs(u[k] / u[0] - ref[k] * lam ** k) <= 1e-6 * abs(ref[k] * lam ** k) + 1e-9 for k in range(order + 1)), "prototype polynomial")
    c.check(len(list(v)) == 1, "prototype without zeros")


def mag(c, a, b, f):
    z = c.np.exp(1j * math.pi * f)
    num = 0.0
    for t in b:
        num = num * z + t
    den = 0.0
    for t in [1.0] + [-t for t in a[1:]]:
        den = den * z + t
    # two ways of writing one number, so that the one the code uses is recognised
    return abs(num / den), abs(num) / abs(den)


def binomial(n):
    return [float(math.comb(n, k)) for k in range(n + 1)]


def search(c, style, order, count, complement, steps, freq, tail=False):
    gain = c.real("gain", -4, 4)
    log = []
    fp = 1.0 - freq if complement else freq

    def transform(u, v, frequency, bilinear=True):
        k = len(log)
        if k >= steps:
            if not tail:
                c.cut()
            a = [0.0] * (order + 1)
            a[1] = 0.999
            if k == steps:
                log.append(a)
            return c.arr(a), c.arr([0.0] * (order + 1))
        prototype(c, style, order, u, v)
        c.check(bool(bilinear) == (style != "Bessel"), "transform of the style")
        if not k:
            c.real_close(frequency, fp, 1e-9, "search starts at the frequency")
        if order == 1:
            r = c.real("r%d" % k, -0.95, 0.95)
            a = [0.0, r]
        elif order > 2:
            a = [0.0, c.real("r%d" % k, -0.95, 0.95)] + [0.0] * (order - 1)
        else:
            # stability triangle
            p = c.real("p%d" % k, -1.9, 1.9)
            q = c.real("q%d" % k, -0.9, 0.9)
            c.assume(c.both(p + q <= 0.95, q - p <= 0.95))
            a = [0.0, p, q]
        log.append(list(a))
        return c.arr(a), c.arr([c.real("junk%d" % k)] + [0.0] * order)
    c.db.ZTransform.transform = staticmethod(transform)
    g = c.db.IirFilter(style=style, frequency=freq, order=order, count=count, complement=complement, gain=gain)
    a, b = list(g.a), list(g.b)
    sg = [(-1.0) ** k if complement else 1.0 for k in range(order + 1)]
    if not log:
        c.cut()                       # candidates from elsewhere are decided by the design instances
    c.check(len(a) == order + 1 and len(b) == order + 1, "length")
    c.close(a[0], 0.0, 0.0, "no zeroth recursive term")
    c.close(total([s * v for s, v in zip(sg, b)]), gain * (1.0 - total([s * v for s, v in zip(sg, a)])), 1e-9, "gain")
    w = binomial(order)
    for k in range(1, order + 1):
        c.close(sg[k] * b[k], sg[0] * b[0] * w[k], 1e-9, "zeros")
    cand, e = [], ([], [])
    for v in log:
        bb = [(1.0 - total(v)) * t / 2.0 ** order for t in w]
        cand.append(bb)
        for k, t in enumerate(mag(c, v, bb, fp)):
            e[k].append(abs(2.0 ** -0.5 - t ** count))
    same = [c.all([abs(s * x - y) <= 1e-9 for s, x, y in zip(sg, a, v)]) for v in log]
    if len(log) == 1:
        c.check(same[0], "uses the candidate")
    else:
        c.check(c.any([c.both(same[i], c.any([c.all([t[i] <= t[j] + 1e-9 for j in range(len(log))]) for t in e])) for i in range(len(log))]), "uses the best candidate")


def design(c, style, order, count, complement, f, tol):
    gain = c.real("gain", -4, 4)
    g = c.db.IirFilter(style=style, frequency=f, order=order, count=count, complement=complement, gain=gain)
    a, b = [float(t) for t in g.a], list(g.b)
    sg = [(-1.0) ** k if complement else 1.0 for k in range(order + 1)]
    c.check(len(a) == order + 1 and len(b) == order + 1, "length")
    c.check(a[0] == 0.0, "no zeroth recursive term")
    c.check(bool(max(abs(numpy.roots([1.0] + [-t for t in a[1:]]))) < 1.0), "stable")
    c.close(total([s * v for s, v in zip(sg, b)]), gain * (1.0 - total([s * v for s, v in zip(sg, a)])), 1e-9, "gain")
    w = binomial(order)
    for k in range(1, order + 1):
        c.close(sg[k] * b[k], sg[0] * b[0] * w[k], 1e-9, "zeros")
    z = [complex(math.cos(math.pi * f * k), -math.sin(math.pi * f * k)) for k in range(order + 1)]
    den = abs(1.0 - sum(t * q for t, q in zip(a[1:], z[1:])))
    re, im = total([v * q.real for v, q in zip(b, z)]), total([v * q.imag for v, q in zip(b, z)])
    m2 = (2.0 ** (-0.5 / count) * den) ** 2
    c.check(abs(re * re + im * im - m2 * gain * gain) <= 2 * tol * m2 * gain * gain + 1e-12, "-3 dB at the frequency")
    c.close(list(g.s), [0.0] * (order + 1), 1e-12, "state at rest")
    if complement:
        h = c.db.IirFilter(style=style, frequency=1.0 - f, order=order, count=count, gain=gain)
        c.close([s * v for s, v in zip(sg, b)], list(h.b), 1e-9, "mirror of the design at one minus the frequency")
        c.close([s * v for s, v in zip(sg, a)], list(h.a), 1e-9, "mirror of the design at one minus the frequency")


def instances(tier):
    out = []
    for style in ("Bessel", "Butterworth", "Chebyshev"):
        for order in range(3, 13):
            out.append(dict(name="prototype %s order %d" % (style, order), fn="search",
                            kw=dict(style=style, order=order, count=1, complement=False, steps=1, freq=0.3, tail=False)))
    for style, order, count, comp, steps, fr, tail in (
            ("Butterworth", 1, 1, False, 2, 0.3, False), ("Butterworth", 1, 2, True, 2, 0.6, False), ("Chebyshev", 2, 1, False, 1, 0.3, False), ("Bessel", 2, 2, True, 1, 0.7, False),
            ("Bessel", 1, 1, False, 1, 0.25, True), ("Chebyshev", 1, 2, True, 1, 0.6, True)) + (
            (("Chebyshev", 2, 1, False, 2, 0.3, False), ("Bessel", 2, 2, True, 2, 0.7, False), ("Butterworth", 2, 1, False, 1, 0.25, True)) if tier == "thorough" else ()):
        out.append(dict(name="search %s order %d count %d%s steps %d at %g%s" % (style, order, count, " complement" if comp else "", steps, fr, " exhausted" if tail else ""), fn="search",
                        kw=dict(style=style, order=order, count=count, complement=comp, steps=steps, freq=fr, tail=tail)))
    ds = []
    for order in (1, 2, 3, 4, 6):
        ds += [("Chebyshev", order, 1, False, 0.3), ("Chebyshev", order, 2, order % 2 == 0, 0.5), ("Chebyshev", order, 1, True, 0.75)]
    for order in (3, 4, 5):
        ds += [("Butterworth", order, 1, False, 0.2), ("Butterworth", order, 3, True, 0.6), ("Butterworth", order, 2, False, 0.4)]
    for order in (4, 5, 6):
        ds += [("Bessel", order, 1, False, 0.1), ("Bessel", order, 1, True, 0.9)]
    ds += [("Butterworth", 2, 1, False, 0.1), ("Bessel", 2, 1, False, 0.05), ("Butterworth", 8, 1, False, 0.3), ("Chebyshev", 8, 2, False, 0.3)]
    if tier == "thorough":
        for order in range(1, 9):
            for f in (0.1, 0.2, 0.4, 0.6):
                for count in (1, 2, 3):
                    for comp in (False, True):
                        ds.append(("Chebyshev", order, count, comp, 1.0 - f if comp else f))
                        if order > 2:
                            ds.append(("Butterworth", order, count, comp, 1.0 - f if comp else f))
    seen = set()
    for d in ds:
        if d in seen:
            continue
        seen.add(d)
        out.append(dict(name="design %s order %d count %d%s at %g" % (d[0], d[1], d[2], " complement" if d[3] else "", d[4]), fn="design",
                        kw=dict(style=d[0], order=d[1], count=d[2], complement=d[3], f=d[4], tol=2e-3)))
    return out
