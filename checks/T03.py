"""PSD values are mean windowed periodograms at their frequency labels."""
import math

from checks.lib import cis, signal, total

BOUNDS = "windows of 2..6 and 8 samples (to 12 in thorough), hops 1..window length and beyond, up to 4 window positions, arbitrary real, complex or integer signals and arbitrary windows; 5..88 window positions with four arbitrary samples"
ASSUMPTIONS = ["values in [-4, 4], windows in [-2, 2] with an entry of magnitude at least 0.05 (the code rejects windows close to zero)",
               "labels 0, 2/N, ... are N // 2 in number; hops below one are not claimed"]
T = dict(f=float, c=complex, i=int)


def power(w, x, f, n):
    re = total([w[k] * x[k] * cis(-f * k) for k in range(n)]) * (1.0 / n)
    return re.real * re.real + re.imag * re.imag


def psd(c, n, hop, m, spec, kind="f", form="array", wkind="f"):
    x = signal(c, "x", m, kind)
    w = list(c.vec("w", n, -2, 2, kind=wkind))
    c.assume(c.any([abs(v) >= 0.05 for v in w]))
    xa = list(x) if form == "list" else c.arr(x, T[kind])
    wa = list(w) if form == "list" else c.arr(w, T[wkind])
    y, f = c.db.PsdTransform.transform(xa, b=wa, index=hop, spectrogram=spec) if spec is not None else c.db.PsdTransform.transform(xa, wa, hop)
    starts = [i for i in range(0, m, hop) if i + n <= m]
    rows = [[power(w, x[i:i + n], 2.0 * k / n, n) for k in range(n // 2)] for i in starts]
    c.check(len(f) == n // 2, "N // 2 labels")
    c.close(list(f), [2.0 * k / n for k in range(n // 2)], 1e-12, "labels")
    if spec:
        c.check(tuple(y.shape) == (len(starts), n // 2), "one row per window position")
        for i in range(len(starts)):
            c.close(list(y[i]), rows[i], 1e-9, "periodogram")
    else:
        c.check(tuple(y.shape) == (n // 2,), "one value per label")
        c.close(list(y), [total([r[k] for r in rows]) * (1.0 / len(rows)) for k in range(n // 2)], 1e-9, "mean periodogram")
        if n <= 3 and len(rows) == 1:
            # otherwise this follows from being equal to a mean of squares
            for k in range(n // 2):
                c.check(y[k] >= 0.0, "never negative")
    c.close(list(xa), x, 0.0, "signal unchanged")
    c.close(list(wa), w, 0.0, "window unchanged")


def window(c, style, n, hop, m):
    x = signal(c, "x", m)
    b = c.db.WindowFilter(style, n - 1).b
    w = [float(v) for v in b]
    y, f = c.db.PsdTransform.transform(c.arr(x), b=b, index=hop)
    starts = [i for i in range(0, m, hop) if i + n <= m]
    rows = [[power(w, x[i:i + n], 2.0 * k / n, n) for k in range(n // 2)] for i in starts]
    c.close(list(y), [total([r[k] for r in rows]) * (1.0 / len(rows)) for k in range(n // 2)], 1e-9, "mean periodogram")


def reject(c):
    P = c.db.PsdTransform.transform
    c.check(c.raises(lambda: P([], [1.0], 1), ValueError), "empty signal")
    c.check(c.raises(lambda: P([1.0], [], 1), ValueError), "empty window")
    c.check(c.raises(lambda: P([1.0], [1.0, 1.0], 1), ValueError), "window longer than the signal")
    c.check(c.raises(lambda: P([1.0, 1.0], [0.0, 0.0], 1), ValueError), "zero window")


def instances(tier):
    out = []

    def add(fn, **k):
        out.append(dict(name=fn + " " + " ".join("%s %s" % t for t in k.items()), fn=fn, kw=k, budget=150))
    for n in (2, 3, 4, 5, 6) + ((7, 8, 9, 10, 12) if tier == "thorough" else (8,)):
        for hop in sorted({1, 2, max(n // 2, 1), n - 1, n, n + 1}):
            if n == 8 and hop in (2,) and tier != "thorough":
                continue
            for extra in sorted({0, hop, 2 * hop + 1}):
                if extra and extra >= 4 * hop:
                    continue
                for spec in (True, False):
                    if n + extra <= (12 if tier == "quick" else 20):
                        add("psd", n=n, hop=hop, m=n + extra, spec=spec)
    for n in (3, 4):
        for spec in (True, False):
            add("psd", n=n, hop=2, m=n + 3, spec=spec, kind="c")
            add("psd", n=n, hop=2, m=n + 2, spec=spec, kind="i", wkind="i")
            add("psd", n=n, hop=1, m=n + 1, spec=spec, kind="c", form="list")
    add("psd", n=4, hop=2, m=7, spec=None)
    for s in ("Hann", "Kaiser"):
        add("window", style=s, n=8, hop=4, m=20)
        add("window", style=s, n=7, hop=3, m=14)
    add("window", style="Hann", n=32, hop=16, m=100)
    add("window", style="Hamming", n=9, hop=2, m=70)
    add("psd", n=3, hop=1, m=90, spec=True)
    add("psd", n=4, hop=3, m=150, spec=False)
    add("psd", n=5, hop=40, m=170, spec=False)
    add("reject")
    return out
