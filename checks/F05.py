"""FIR designs: gain, symmetry, mirror, and the candidate nearest to -3 dB."""
import math

from checks.lib import total

BOUNDS = ("search: orders 1 and 2, count 1..2, symbolic frequency-normalised prototypes over 1..3 search steps (paths that search longer are cut after the assertions made so far), symbolic gain; "
          "designs: listed styles, orders 1..9, counts, frequencies, complement, with symbolic gain")
ASSUMPTIONS = ["in the search instances scipy.signal.firwin returns any symmetric vector of unit sum"]

WINDOWS = {"Blackman": "blackman", "Hamming": "hamming", "Hann": "hann", "Kaiser": ("kaiser", 7.0)}


def prototype(c, order, log, style, freq, steps, tail=False, lo=-1, hi=1):
    """stand-in for firwin: an arbitrary symmetric vector of unit sum"""
    def firwin(numtaps, cutoff, *, width=None, window="hamming", pass_zero=True, scale=True, fs=None):
        if len(log) >= steps:
            if not tail:
                c.cut()
            # from here on the search sees the same poor candidate until it gives up
            v = [-50.0] + [0.0] * (order - 1) + [-50.0]
            v[order // 2] += 101.0
            if len(log) == steps:
                log.append(v)
            return c.arr(v)
        c.check(numtaps == order + 1, "taps")
        w = WINDOWS[style]
        c.check((window == w) if isinstance(w, str) else (tuple(window)[0] == w[0] and float(tuple(window)[1]) == w[1]), "window of the style")
        c.check(pass_zero in (True, "lowpass") and bool(scale) and width is None, "lowpass of unit gain")
        cut = cutoff / ((2.0 if fs is None else fs) / 2.0)
        c.check(c.both(cut > 0.0, cut <= 1.0 + 1e-12), "cutoff in range")
        if not log:
            c.real_close(cut, freq, 1e-9, "search starts at the frequency")
        k = len(log)
        h = [c.real("h%d[%d]" % (k, i), lo, hi) for i in range((order + 1) // 2)]
        if (order + 1) % 2:
            v = h + [1.0 - 2.0 * total(h)] + h[::-1]
        else:
            h = h[:-1]
            h = h + [0.5 - total(h)]
            v = h + h[::-1]
        log.append(list(v))
        return c.arr(v)
    return firwin


def mag(c, v, f):
    """|sum v[k] z**-k| at z = exp(j pi f)"""
    z = c.np.exp(1j * math.pi * f)
    h = 0.0
    for t in v:
        h = h * z + t
    return abs(h)


def search(c, style, order, count, complement, steps, freq, tail=False):
    f = c.real("frequency", 0.02, 0.98) if freq is None else freq
    gain = c.real("gain", -4, 4)
    log = []
    fp = 1.0 - f if complement else f
    c.stub("scipy.signal.firwin", prototype(c, order, log, style, fp, steps, tail))
    g = c.db.FirFilter(style=style, frequency=f, order=order, count=count, complement=complement, gain=gain)
    if not log:
        c.cut()                       # prototypes from elsewhere are decided by the design instances
    b = list(g.b)
    c.check(len(b) == order + 1, "length")
    sg = [(-1.0) ** k if complement else 1.0 for k in range(order + 1)]
    c.close(total([s * v for s, v in zip(sg, b)]), gain, 1e-9, "gain")
    for k in range((order + 1) // 2):
        m = -1.0 if complement and order % 2 else 1.0
        c.close(b[k], m * b[order - k], 1e-9, "symmetry")
    # the chosen prototype is a candidate, and none is nearer to -3 dB
    e = [abs(2.0 ** -0.5 - mag(c, v, fp) ** count) for v in log]
    same = [c.all([abs(s * u - gain * w) <= 1e-9 for s, u, w in zip(sg, b, v)]) for v in log]
    same = [s if not complement else c.either(s, c.all([abs(-t * u - gain * w) <= 1e-9 for t, u, w in zip(sg, b, v)])) for s, v in zip(same, log)]
    if len(log) == 1:
        c.check(same[0], "uses the candidate")
    else:
        c.check(c.any([c.both(same[i], c.all([e[i] <= e[j] + 1e-9 for j in range(len(log))])) for i in range(len(log))]), "uses the best candidate")


def design(c, style, order, count, complement, f, tol):
    gain = c.real("gain", -4, 4)
    g = c.db.FirFilter(style=style, frequency=f, order=order, count=count, complement=complement, gain=gain)
    b = list(g.b)
    sg = [(-1.0) ** k if complement else 1.0 for k in range(order + 1)]
    c.check(len(b) == order + 1, "length")
    c.close(total([s * v for s, v in zip(sg, b)]), gain, 1e-9, "gain")
    for k in range((order + 1) // 2):
        c.close(b[k], b[order - k] * (-1.0 if complement and order % 2 else 1.0), 1e-9, "symmetry")
    want = 2.0 ** (-0.5 / count)
    re = total([v * math.cos(math.pi * f * k) for k, v in enumerate(b)])
    im = total([v * -math.sin(math.pi * f * k) for k, v in enumerate(b)])
    # linear phase: rotate by half the order so that one component holds the magnitude
    a = math.pi * f * order / 2.0
    zp = (re * math.cos(a) - im * math.sin(a), re * math.sin(a) + im * math.cos(a))
    z = zp[1] if complement and order % 2 else zp[0]
    c.check(abs(abs(z) - want * abs(gain)) <= tol * abs(gain) + 1e-9, "-3 dB at the frequency")
    c.close(list(g.s), [0.0] * (order + 1), 1e-12, "state at rest")
    if complement:
        h = c.db.FirFilter(style=style, frequency=1.0 - f, order=order, count=count, gain=gain)
        c.close([s * v for s, v in zip(sg, b)], list(h.b), 1e-9, "mirror of the design at one minus the frequency")


def explicit(c, n, kb):
    b = c.vec("b", n, kind=kb)
    keep = list(b)
    g = c.db.FirFilter(style="Kaiser", frequency=0.5, order=4, b=b)
    c.close(list(g.b), keep, 0.0, "explicit coefficients override constraints")
    c.close(list(g.s), [0.0] * n, 0.0, "state at rest")


def instances(tier):
    out = []
    for style in WINDOWS:
        out.append(dict(name="search %s order 1" % style, fn="search", kw=dict(style=style, order=1, count=1, complement=False, steps=2, freq=None)))
    for order, count, comp, steps, fr in ((2, 1, False, 2, 0.3), (2, 1, True, 2, 0.3), (2, 2, False, 2, 0.6), (2, 2, True, 2, 0.2), (3, 1, False, 2, 0.25), (3, 1, True, 2, 0.7)) + (
            ((2, 2, False, 3, 0.1), (2, 1, False, 3, 0.4), (4, 2, False, 2, 0.4)) if tier == "thorough" else ()):
        out.append(dict(name="search order %d count %d%s steps %d at %g" % (order, count, " complement" if comp else "", steps, fr), fn="search",
                        kw=dict(style="Kaiser", order=order, count=count, complement=comp, steps=steps, freq=fr)))
    for count, comp in ((1, False), (2, True)):
        out.append(dict(name="exhausted search count %d%s" % (count, " complement" if comp else ""), fn="search",
                        kw=dict(style="Hann", order=2, count=count, complement=comp, steps=1, freq=0.4, tail=True)))
    ds = []
    for style in WINDOWS:
        ds += [(style, 8, 1, False, 0.5), (style, 8, 2, False, 0.6), (style, 8, 2, True, 0.4), (style, 12, 2, False, 0.4), (style, 9, 3, False, 0.5), (style, 8, 3 + len(style) % 3, True, 0.4), (style, 12, 1, True, 0.6)]
    ds += [("Kaiser", 7, 1, False, 0.6), ("Hamming", 7, 1, True, 0.5), ("Hamming", 6, 3, False, 0.5)]
    if tier == "thorough":
        for style in WINDOWS:
            for order in (8, 12, 20, 31):
                for f in (0.5, 0.6):
                    for count in (1, 2, 3):
                        for comp in (False, True):
                            ds.append((style, order, count, comp, 1.0 - f if comp else f))
    seen = set()
    for d in ds:
        if d in seen:
            continue
        seen.add(d)
        out.append(dict(name="design %s order %d count %d%s at %g" % (d[0], d[1], d[2], " complement" if d[3] else "", d[4]), fn="design",
                        kw=dict(style=d[0], order=d[1], count=d[2], complement=d[3], f=d[4], tol=1e-3)))
    for n, kb in ((1, "f"), (3, "f"), (2, "c")):
        out.append(dict(name="explicit %d %s" % (n, kb), fn="explicit", kw=dict(n=n, kb=kb)))
    return out
