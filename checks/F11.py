"""Rank filter output is the sample of the requested rank in its window."""

from checks.lib import mixed

BOUNDS = "orders 0..3 with every index, signals of 1..4 samples (thorough order 4, 5 samples), real and integer; complex with orders 1..2; index changed between calls; ties included; long signals (30..140 samples, orders up to 16) with one symbolic sample among listed ones"
ASSUMPTIONS = ["magnitudes of complex samples are compared through their squares"]
T = dict(f=float, c=complex, i=int)


def mag(c, v, cx):
    if cx:
        return v.real * v.real + v.imag * v.imag
    return abs(v)


def ranked(c, y, win, index, cx):
    m = [mag(c, v, cx) for v in win]
    # equal magnitudes of complex samples need not be equal after rounding
    eps = 1e-9 if cx else 0.0
    ok = []
    for i, v in enumerate(win):
        less = eq = 0
        for j in range(len(win)):
            less = less + c.ite(m[j] < m[i] - eps, 1, 0)
            eq = eq + c.ite(m[j] <= m[i] + eps, 1, 0)
        same = c.both(y.real == v.real, y.imag == v.imag) if cx else y == v
        ok.append(c.all([same, less <= index, eq >= index + 1]))
    return c.any(ok)


def rank(c, index, order, n, kind, change=None, kinds=None):
    cx = kind == "c"
    x = list(c.vec("x", n, -4, 4, kind=kind)) if n < 10 else mixed(c, "x", n, (n // 2,), kind)
    f = c.db.RankFilter(index=index, order=order)
    zero = c.core.SymComplex(c.core.mkreal(0), c.core.mkreal(0)) if cx and c.symbolic else 0j if cx else 0
    at = change[0] if change else n
    y = list(f.filter(c.arr(x[:at], T[kind])))
    if change:
        f.index = change[1]
        y += list(f.filter(c.arr(x[at:], T[kind])))
    c.check(len(y) == n, "length")
    for k in range(n):
        win = [x[k - i] if k >= i else zero for i in range(order + 1)]
        c.check(ranked(c, y[k], win, change[1] if change and k >= at else index, cx), "rank")


def instances(tier):
    out = []

    def add(**k):
        out.append(dict(name=" ".join("%s %s" % t for t in k.items()), fn="rank", kw=k))
    for order in range(4):
        for index in range(order + 1):
            add(index=index, order=order, n=4 if order < 3 else 3, kind="f")
    for index in range(3):
        add(index=index, order=2, n=3, kind="i")
    for index in range(2):
        add(index=index, order=1, n=2, kind="c")
    for index in range(3):
        add(index=index, order=2, n=3, kind="c")
    add(index=0, order=2, n=3, kind="f", change=[1, 2])
    add(index=2, order=2, n=4, kind="f", change=[2, 1])
    add(index=3, order=9, n=30, kind="f")
    add(index=16, order=16, n=34, kind="f")
    add(index=2, order=7, n=10, kind="c")
    add(index=1, order=1, n=130, kind="i")
    add(index=2, order=4, n=140, kind="f", change=[130, 1])
    if tier == "thorough":
        for index in range(5):
            add(index=index, order=4, n=5, kind="f")
    return out
