"""Filtering a signal in consecutive blocks gives the same result as filtering it at once."""

from checks.lib import mixed

BOUNDS = "signals of 2..6 samples split at every position into two blocks (some into three), all stateful filters, coefficients symbolic or designed as listed; signals of 20..160 samples with four symbolic samples, two of them beside the split"
ASSUMPTIONS = ["real arithmetic, with the accumulated binary64 rounding error bounded separately where finite", "a filter whose blocks are shorter than its window is included"]


def make(c, kind):
    db = c.db
    if kind == "fir":
        b = c.vec("b", 3)
        return lambda: db.FirFilter(b=b)
    if kind == "firc":
        b = c.vec("b", 2, kind="c")
        return lambda: db.FirFilter(b=b)
    if kind == "iir":
        a, b = c.vec("a", 2, -1, 1), c.vec("b", 3)
        return lambda: db.IirFilter(a=c.arr([0.0] + list(a)), b=b)
    if kind.startswith("derivative"):
        return lambda: db.DerivativeFilter(derivative=int(kind[10]), order=int(kind[11]))
    if kind.startswith("integral"):
        return lambda: db.IntegralFilter(order=int(kind[8]))
    if kind.startswith("rank"):
        return lambda: db.RankFilter(index=int(kind[4]), order=int(kind[5]))
    if kind == "pid":
        b = c.vec("b", 3)
        return lambda: db.PidFilter(b=b)
    if kind == "pidlimit":
        b = c.vec("b", 3)
        lim = c.real("limit", 0, 6)

        def f():
            g = db.PidFilter(b=b)
            g.limit = lim
            return g
        return f
    if kind == "exponential":
        return lambda: db.ComplexExponentialFilter(phase=0.25)
    if kind == "exponentialp":
        p = c.real("phase", -1, 1)
        return lambda: db.ComplexExponentialFilter(phase=p)
    if kind == "goertzel":
        w = c.vec("w", 3)
        c.assume(abs(w[0]) >= 0.1)
        return lambda: db.GoertzelFilter(b=w, frequency=0.5)
    if kind == "goertzel2":
        return lambda: db.GoertzelFilter(b=c.np.array([0.5, 1.0]), frequency=0.3)
    if kind == "bandpass":
        r = c.real("rate", 0, 1)
        return lambda: db.ComplexBandpassFilter(frequency=0.25, rate=r)
    if kind == "frequency":
        r = c.real("rate", 0, 1)
        return lambda: db.ComplexFrequencyFilter(frequency=0.5, rate=r)
    if kind.startswith("polyphase"):
        return lambda: db.PolyphaseRateFilter(rate=float(kind[9:]))
    raise KeyError(kind)


def chunks(c, kind, n, splits, kx):
    mk = make(c, kind)
    lo, hi = (-1, 1) if kind.startswith("exponential") else (-4, 4)
    if n <= 12:
        x = c.vec("x", n, lo, hi, kind=kx)
    else:
        # symbolic order statistics are expensive: fewer free values
        free = {splits[0] - 1, splits[0]} if kind.startswith("rank") else {0, splits[0] - 1, splits[0], n - 1}
        x = mixed(c, "x", n, free, kx, lo, hi)
        x = c.arr([v if lo < -1 or k in free else v / 4.0 for k, v in enumerate(x)], dict(f=float, c=complex, i=int)[kx])
    if kind == "frequency":
        for v in list(x):
            c.assume(v.real >= 0.5)
    f, g = mk(), mk()
    whole = f.filter(x)
    parts = []
    at = [0] + list(splits) + [n]
    for p, q in zip(at, at[1:]):
        parts.append(g.filter(x[p:q]))
    if isinstance(whole, tuple):
        for k in range(len(whole)):
            c.close([v for p in parts for v in list(p[k])], list(whole[k]), 1e-7, "output %d" % k)
    else:
        c.close([v for p in parts for v in list(p)], list(whole), 1e-8, "output")
    # and both continue alike
    if kind.startswith("polyphase") or kind == "frequency" or kind.startswith("rank") and n > 12:
        return
    t = c.vec("t", 2, lo, hi, kind=kx)
    u, v = f.filter(t), g.filter(t)
    if isinstance(u, tuple):
        u, v = u[0], v[0]
    c.close(list(v), list(u), 1e-7, "later output")


def instances(tier):
    out = []

    def add(kind, n, splits, kx="f"):
        out.append(dict(name="%s %s n%d split %s" % (kind, kx, n, ",".join(map(str, splits))), fn="chunks", kw=dict(kind=kind, n=n, splits=list(splits), kx=kx)))
    for kind in ("fir", "iir", "derivative12", "derivative36", "integral0", "integral1", "integral4", "pid", "rank02", "rank12", "goertzel2", "exponential"):
        n = 4 if kind not in ("rank02", "rank12", "exponential") else 3
        for k in range(1, n):
            add(kind, n, [k])
        add(kind, n, [1, 2])
    add("fir", 4, [2], "i")
    add("fir", 3, [1], "c")
    add("firc", 3, [2], "c")
    add("iir", 3, [1], "c")
    add("pidlimit", 3, [1])
    add("pidlimit", 3, [2])
    add("exponentialp", 2, [1])
    add("goertzel", 6, [2])
    add("goertzel", 6, [4], "c")
    add("goertzel2", 5, [3], "c")
    add("bandpass", 3, [1], "c")
    add("bandpass", 3, [2], "c")
    add("frequency", 2, [1], "c")
    for r, n, sp in (("1.0", 6, [2]), ("2.0", 4, [1]), ("0.5", 8, [4]), ("0.5", 6, [2]), ("3.0", 3, [1]), ("1.5", 6, [2]), ("0.25", 12, [4]), ("0.25", 12, [6])):
        add("polyphase" + r, n, sp)
    for kind in ("fir", "iir", "derivative36", "integral4", "pid", "exponential"):
        add(kind, 20 if kind == "iir" else 150, [9 if kind == "iir" else 130])
    add("fir", 150, [64, 128], "i")
    add("goertzel2", 151, [101])
    add("rank12", 40, [33])
    add("bandpass", 20, [11], "c")
    for r, n, sp in (("1.0", 150, [130]), ("2.0", 80, [70]), ("0.5", 160, [128]), ("0.25", 160, [132])):
        add("polyphase" + r, n, sp)
    if tier == "thorough":
        for kind in ("fir", "iir", "derivative28", "integral3", "pid", "goertzel2", "exponential"):
            for k in range(1, 6):
                add(kind, 6, [k])
            add(kind, 6, [1, 3, 5])
        add("rank24", 5, [2])
        add("pidlimit", 5, [3])
        add("exponentialp", 4, [2])
        add("bandpass", 5, [2], "c")
        add("frequency", 3, [1], "c")
        for r, n, sp in (("2.0", 12, [5]), ("1.25", 12, [4]), ("7.0", 4, [1, 2])):
            add("polyphase" + r, n, sp)
    return out
