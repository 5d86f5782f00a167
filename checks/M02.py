"""Gaussian model: classes ranked by Mahalanobis distance."""
from checks.lib import mixed, total

BOUNDS = ("one column: two or three classes of one to three samples, symbolic regularisation in [1/8, 2] for two classes; two columns: two classes of one or two samples, regularisation 1/10 and 1/2; two and three columns: four or six fixed samples (or two fixed and one symbolic) and symbolic queries; one or two queries; 15..40 samples of three to five classes with one symbolic sample or coordinate among listed ones, five queries; "
          "label sets with negative, non-contiguous, unordered and large labels; sample and query values in [-4, 4]")
ASSUMPTIONS = ["classes whose distances differ by less than 1e-7 may come in either order"]


def describe(c, rows, r):
    """mean and regularised covariance of the samples of one class"""
    n, k = len(rows), len(rows[0])
    u = [total([x[j] for x in rows]) / n for j in range(k)]
    s = [[total([(x[i] - u[i]) * (x[j] - u[j]) for x in rows]) / n + (r if i == j else 0.0) for j in range(k)] for i in range(k)]
    return u, s


def dist(c, q, u, s):
    """squared Mahalanobis distance"""
    d = [a - b for a, b in zip(q, u)]
    if len(d) == 1:
        return d[0] * d[0] / s[0][0]
    if len(d) > 2:
        # concrete samples only
        i = c.np.linalg.inv(c.np.array([[float(t) for t in r] for r in s]))
        return total([d[j] * d[k] * float(i[j][k]) for j in range(len(d)) for k in range(len(d))])
    det = s[0][0] * s[1][1] - s[0][1] * s[1][0]
    return (d[0] * d[0] * s[1][1] - d[0] * d[1] * (s[0][1] + s[1][0]) + d[1] * d[1] * s[0][0]) / det


def check_rank(c, row, q, desc, order):
    n = len(order)
    row = [int(t) for t in row]
    c.check(sorted(row) == sorted(order), "every label once")
    for a, b in zip(row[:-1], row[1:]):
        c.check(dist(c, q, *desc[a]) <= dist(c, q, *desc[b]) + 1e-7, "ascending Mahalanobis distance")


def model(c, labels, cols=1, queries=1, r=None, dtype=int, fix=()):
    """labels: the label of each sample"""
    n = len(labels)
    if c.symbolic:
        c.st.sort_branch = True
    if n <= 8:
        x = [list(t) for t in c.mat("x", n, cols)]
    else:
        x = mixed(c, "x", n * cols, (n // 2,) if n < 20 else ())
        x = [x[i * cols:(i + 1) * cols] for i in range(n)]
    for k, t in fix:
        x[k] = list(t)
    if queries <= 4:
        q = [list(t) for t in c.mat("q", queries, cols)]
    else:
        q = mixed(c, "q", queries * cols, (queries * cols - 1,))
        q = [q[i * cols:(i + 1) * cols] for i in range(queries)]
    reg = c.real("r", 0.125, 2) if r is None else r
    m = c.db.GaussianModel(reg) if r != 0.1 else c.db.GaussianModel()
    desc = {}
    for l in sorted(set(labels)):
        desc[l] = describe(c, [t for t, k in zip(x, labels) if k == l], reg)
    m.fit(c.arr(x, float), c.np.array(labels, dtype))
    v = m.predict(c.arr(q, float))
    c.check(tuple(v.shape) == (queries, len(desc)), "one row per query, one column per class")
    for i in range(queries):
        check_rank(c, list(v[i]), q[i], desc, list(desc))


def permute(c, labels, perm, r=0.5):
    n = len(labels)
    x = [list(t) for t in c.mat("x", n, 1)]
    q = [list(t) for t in c.mat("q", 1, 1)]
    m, p = c.db.GaussianModel(r), c.db.GaussianModel(r)
    m.fit(c.arr(x, float), c.np.array(labels, int))
    v = [int(t) for t in m.predict(c.arr(q, float))[0]]
    p.fit(c.arr([x[i] for i in perm], float), c.np.array([labels[i] for i in perm], int))
    w = [int(t) for t in p.predict(c.arr(q, float))[0]]
    desc = {}
    for l in sorted(set(labels)):
        desc[l] = describe(c, [t for t, k in zip(x, labels) if k == l], r)
    check_rank(c, w, q[0], desc, list(desc))
    for a, b in zip(v, w):
        c.check(abs(dist(c, q[0], *desc[a]) - dist(c, q[0], *desc[b])) <= 1e-7 if a != b else True, "the order of the samples does not matter")


def again(c):
    """fitting again replaces what was learned; the regularisation at the time of fit counts"""
    x = [list(t) for t in c.mat("x", 3, 1)]
    q = [list(t) for t in c.mat("q", 1, 1)]
    r = c.real("r", 0.125, 2)
    m = c.db.GaussianModel(0.75)
    m.fit(c.arr([[0.0], [1.0], [3.0]], float), c.np.array([4, 9, -2], int))
    m.regularize = r
    m.fit(c.arr(x, float), c.np.array([7, 5, 7], int))
    desc = {7: describe(c, [x[0], x[2]], r), 5: describe(c, [x[1]], r)}
    for k in range(2):
        v = m.predict(c.arr(q, float))
        check_rank(c, list(v[0]), q[0], desc, [5, 7])
    c.check(tuple(m.shape) == (1,), "shape")


def reject(c):
    m = c.db.GaussianModel()
    np = c.np
    c.check(c.raises(lambda: m.predict(np.zeros((1, 1))), ValueError, RuntimeError), "predict before fit")
    x, y = np.array([[0.0, 1.0], [2.0, 1.0], [0.5, 0.0]]), np.array([1, 0, 1])
    for a in (np.zeros(3), np.zeros((3, 0)), np.zeros((0, 2)), np.zeros((3, 2, 1))):
        c.check(c.raises(lambda: m.fit(a, y), ValueError), "samples of any other shape")
    c.check(c.raises(lambda: m.fit(x, y[:2]), ValueError), "labels missing")
    c.check(c.raises(lambda: m.fit(x, np.array([1.0, 0.0, 1.0])), TypeError, ValueError), "labels not integers")
    m.fit(x, y)
    for a in (np.zeros(2), np.zeros((1, 3)), np.zeros((1, 1)), np.zeros((0, 2))):
        c.check(c.raises(lambda: m.predict(a), ValueError), "query of any other shape")
    m.predict(x)


def instances(tier):
    out = []

    def add(fn, **k):
        out.append(dict(name=fn + " " + " ".join("%s %s" % t for t in k.items()), fn=fn, kw=k, budget=250 if tier == "quick" else 1500))
    add("model", labels=[0, 1, 0, 1], cols=1)
    add("model", labels=[0, 1])
    add("model", labels=[3, -2, 3], queries=2)
    add("model", labels=[1000003, -7, -7])
    add("model", labels=[5, 2, 9], r=0.5)
    add("model", labels=[5, 2, 9, 5], r=0.1)
    add("model", labels=[0, 0])
    add("model", labels=[1, 1, 0, 1], r=0.25)
    add("model", labels=[-1, 1], cols=2, r=0.1)
    add("model", labels=[2, 0, 2], cols=2, r=0.5, fix=[(0, [0.5, -1.0]), (1, [0.0, 2.0])])
    add("model", labels=[0, 4, 0], cols=2, r=0.1, fix=[(0, [1.0, 3.0]), (2, [-1.0, 2.0])])
    add("model", labels=[0, 4, 0, 4, 0, 4], cols=2, r=0.1, fix=[(0, [1.0, 3.0]), (1, [0.0, 0.5]), (2, [-1.0, 2.0]), (3, [0.5, -1.0]), (4, [2.0, -1.0]), (5, [3.0, 3.0])])
    add("model", labels=[6, 4, 4, 6], cols=3, r=0.25, fix=[(0, [1.0, 3.0, -1.0]), (1, [0.0, 0.5, 1.0]), (2, [-1.0, 2.0, 0.0]), (3, [0.5, -1.0, 2.0])])
    add("model", labels=[7, 7, 7], cols=2, r=0.1)
    add("model", labels=[200, 3, 200], r=0.5, dtype="uint8")
    add("permute", labels=[1, 0, 1], perm=[2, 1, 0])
    add("permute", labels=[1, 0, 1], perm=[1, 2, 0])
    add("permute", labels=[-3, 8, 8, -3], perm=[1, 3, 0, 2])
    add("model", labels=[(7 * k) % 3 - 1 for k in range(15)], r=0.5)
    add("model", labels=[(5 * k) % 4 * 3 for k in range(40)], cols=2, r=0.1, queries=5)
    add("model", labels=[4 - k % 5 for k in range(40)], cols=1, r=0.25, queries=5)
    add("again")
    add("reject")
    if tier == "thorough":
        add("model", labels=[2, 0, 2, 0], cols=2, r=0.5)
        add("model", labels=[5, 2, 9, 5, 2, 9], r=0.5)
        add("model", labels=[4, 3, 2, 1], r=0.5)
    return out
