"""Diversity model keeps observations that maximise their minimum distance."""
from checks.lib import mixed, total

BOUNDS = ("orders 1 and 2 (3 in thorough), one or two columns, every style; the order + 1 first observations and one or two more (three for order 1, one column; one for order 2 unless thorough), in one call or one by one, lists and arrays, before and after clearing; two observations (one symbolic) after 24..40 listed ones for orders 1 and 2; one after listed ones for orders 6 and 12; "
          "observation values in [-4, 4]")
ASSUMPTIONS = ["order 0 has no pairs and is not claimed", "ties between members are broken either way"]


def dist(c, style, x, y):
    d = [abs(a - b) for a, b in zip(x, y)]
    if style == "Chebyshev":
        m = d[0]
        for t in d[1:]:
            m = c.ite(t > m, t, m)
        return m
    if style == "Manhattan":
        return total(d)
    if len(d) == 1:
        return d[0]
    if style == "Euclidean":
        return total([t * t for t in d]) ** 0.5
    p = 1.0
    for t in d:
        p = p * t
    return p ** (1.0 / len(d))


def least(c, style, s):
    u = None
    for i in range(len(s)):
        for j in range(i + 1, len(s)):
            d = dist(c, style, s[i], s[j])
            u = d if u is None else c.ite(d < u, d, u)
    return u


def state(m):
    return [list(r) for r in m.s]


def step(c, style, s, v, x, s2, v2):
    """one more observation x of a full model with state s and diversity v gives s2 and v2"""
    n = len(s)
    u = [least(c, style, s[:k] + [x] + s[k + 1:]) for k in range(n)]
    best = u[0]
    for t in u[1:]:
        best = c.ite(t > best, t, best)
    c.close(v2, c.ite(best > v, best, v), 1e-9, "diversity is the best that one replacement reaches")
    opts = [c.all([s2[i][j] == s[i][j] for i in range(n) for j in range(len(x))] + [v2 == v])]
    for k in range(n):
        r = s[:k] + [x] + s[k + 1:]
        opts.append(c.all([s2[i][j] == r[i][j] for i in range(n) for j in range(len(x))] + [abs(u[k] - v2) <= 1e-9, v2 > v]))
    c.check(c.any(opts), "the observation replaces the member that raises the diversity most, or none")


def model(c, style, order, cols, extra, form="array", batch=False, clear=False, kind="f", name=None):
    m = c.db.DiversityModel(name or style, order)
    A = (lambda r: [list(t) for t in r]) if form == "list" else (lambda r: c.arr(r, dict(f=float, i=int)[kind]))
    if clear:
        m.fit(c.arr([[0.5 * k] * (cols + 1) for k in range(order + 2)]))
        m.clear()
    x = [list(r) for r in c.mat("x", order + 1 + extra, cols, kind=kind)]
    f = m.fit(A(x[:order + 1]))
    c.close(list(f), [0.0] * (order + 1), 0.0, "no diversity before a replacement")
    for r, e in zip(m.s, x):
        c.close(list(r), e, 0.0, "first observations in order")
    s, v = state(m), 0.0
    c.check(len(s) == order + 1, "order + 1 members")
    if batch:
        y = m.fit(A(x[order + 1:]))
        c.check(len(y) == extra, "one value per observation")
        for k in range(1, extra):
            c.check(y[k] >= y[k - 1], "diversity never decreases")
        c.check(c.either(y[-1] == 0.0, abs(least(c, style, state(m)) - y[-1]) <= 1e-9), "diversity of the state")
        z = c.db.DiversityModel(style, order)
        w = []
        for r in x:
            w += list(z.fit(A([r])))
        c.close(list(y), w[order + 1:], 1e-9, "one call or several")
        for r, e in zip(m.s, z.s):
            c.close(list(r), list(e), 1e-9, "one call or several")
        return
    for k in range(extra):
        y = m.fit(A([x[order + 1 + k]]))
        c.check(len(y) == 1, "one value per observation")
        s2 = state(m)
        step(c, style, s, v, x[order + 1 + k], s2, y[0])
        s, v = s2, y[0]
        c.check(c.either(v == 0.0, abs(least(c, style, s) - v) <= 1e-9), "diversity of the state")


def long(c, style, order, cols, n):
    """one symbolic observation after many listed ones, then one more listed one"""
    m = c.db.DiversityModel(style, order)
    x = mixed(c, "unused", n * cols, ())
    x = [x[i * cols:(i + 1) * cols] for i in range(n)]
    # spread over time
    x = [[round(16.0 * t * (1.0 + k) / n) / 16.0 for t in r] for k, r in enumerate(x)]
    y = list(m.fit(c.arr(x)))
    w, v = [list(r) for r in x[:order + 1]], 0.0
    for k in range(n):
        if k > order:
            u = [least(c, style, w[:i] + [x[k]] + w[i + 1:]) for i in range(order + 1)]
            if max(u) > v:
                v = max(u)
                w[u.index(v)] = x[k]
        c.close(y[k], v, 1e-9, "diversity over many observations")
    for r, e in zip(m.s, w):
        c.close(list(r), e, 1e-9, "state over many observations")
    s, v = state(m), y[-1]
    for z in (list(c.vec("z", cols)), [0.3] * cols):
        y = m.fit(c.arr([z]))
        s2 = state(m)
        step(c, style, s, v, z, s2, y[0])
        s, v = s2, y[0]


def many(c, style, order, hi=None):
    """many members: one symbolic observation on a line of listed ones; every pair of members matters in turn"""
    n = order + 1
    m = c.db.DiversityModel(style, order)
    # distances between neighbours differ, and the closest pair is any of the pairs (i, j) in storage order
    at = [(5 * k + 2) % n + 0.0625 * k for k in range(n)]
    m.fit(c.arr([[t] for t in at]))
    s, v = [[t] for t in at], 0.0
    for z in ([0.5], [n + 0.25], [c.real("z", -2.0, hi or 2.0 * n)]):
        y = m.fit(c.arr([z]))
        s2 = state(m)
        step(c, style, s, v, z, s2, y[0])
        s, v = s2, y[0]


def partial(c, style, order, cols):
    """filling over several calls"""
    m = c.db.DiversityModel(style, order)
    x = [list(r) for r in c.mat("x", order + 2, cols)]
    for k in range(order + 1):
        y = m.fit(c.arr([x[k]]))
        c.close(list(y), [0.0], 0.0, "no diversity before a replacement")
        for r, e in zip(list(m.s)[:k + 1], x):
            c.close(list(r), e, 0.0, "first observations in order")
    s = state(m)
    y = m.fit(c.arr([x[order + 1]]))
    step(c, style, s, 0.0, x[order + 1], state(m), y[0])


def reject(c):
    m = c.db.DiversityModel("Euclidean", 2)
    for x in ([], [1.0, 2.0], [[]], [[[1.0]]]):
        c.check(c.raises(lambda: m.fit(c.arr(x)), ValueError), "shape")
    m.fit(c.arr([[0.0, 1.0]]))
    c.check(c.raises(lambda: m.fit(c.arr([[0.0, 1.0, 2.0]])), ValueError), "columns")
    m.clear()
    m.fit(c.arr([[0.0, 1.0, 2.0]]))


def instances(tier):
    out = []

    def add(fn, **k):
        out.append(dict(name=fn + " " + " ".join("%s %s" % t for t in k.items()), fn=fn, kw=k, budget=250 if tier == "quick" else 1500))
    S = ("Chebyshev", "Euclidean", "Geometric", "Manhattan")
    for s in S:
        add("model", style=s, order=1, cols=1, extra=2)
        add("model", style=s, order=1, cols=2, extra=1)
        add("model", style=s, order=2, cols=1, extra=1)
        add("partial", style=s, order=1, cols=2)
        add("partial", style=s, order=2, cols=1)
        add("model", style=s, order=1, cols=1, extra=2, batch=True)
        add("model", style=s, order=1, cols=1, extra=1, clear=True, name=s.lower())
    for s in ("Chebyshev", "Manhattan"):
        add("model", style=s, order=1, cols=2, extra=2)
        add("model", style=s, order=1, cols=1, extra=3)
        if tier == "thorough":
            add("model", style=s, order=2, cols=1, extra=2)
        add("model", style=s, order=1, cols=1, extra=2, form="list")
        add("model", style=s, order=1, cols=1, extra=1, kind="i")
    add("model", style="Euclidean", order=1, cols=2, extra=2)
    if tier == "thorough":
        for s in S:
            add("model", style=s, order=2, cols=2, extra=1)
            add("model", style=s, order=3, cols=1, extra=1)
    for s in S:
        add("long", style=s, order=1, cols=1, n=40)
        add("long", style=s, order=2, cols=1, n=24)
    for s in ("Chebyshev", "Manhattan"):
        add("long", style=s, order=1, cols=3, n=24)
    for s in S:
        add("many", style=s, order=6)
    add("many", style="Manhattan", order=12)
    add("reject")
    return out
