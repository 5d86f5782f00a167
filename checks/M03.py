"""Gaussian mixture model: classes ranked by the weighted score of the mixture trained on their samples."""
import types

from checks.lib import mixed, total

BOUNDS = ("two or three classes, orders 1 to 3 for one column and 1 to 2 for two columns, one or two queries (30 and 120 samples with five or six queries for listed mixtures and one symbolic coordinate); symbolic means in [-4, 4], weights in [0, 1], precisions in [1/8, 8] (one column) or listed positive definite matrices (two columns), "
          "sample values in [-4, 4], symbolic iteration count and regularisation")
ASSUMPTIONS = ["the mixture parameters that sklearn.mixture.GaussianMixture.fit finds are arbitrary", "classes whose scores differ by less than 1e-9 may come in either order"]

MATRICES = [[[2.0, 0.5], [0.5, 1.0]], [[0.25, 0.0], [0.0, 4.0]], [[1.0, -0.75], [-0.75, 1.5]]]


def install(c, made, listed=False):
    """a stand-in for sklearn.mixture.GaussianMixture with arbitrary results"""
    class GaussianMixture:
        def __init__(self, n_components=1, *, covariance_type="full", tol=1e-3, reg_covar=1e-6, max_iter=100, **kw):
            self.kw = dict(n_components=n_components, covariance_type=covariance_type, reg_covar=reg_covar, max_iter=max_iter)
            self.rows = None
            self.id = len(made)
            made.append(self)

        def fit(self, x, y=None):
            self.rows = [[t for t in r] for r in x]
            n, k, i = self.kw["n_components"], len(self.rows[0]), self.id
            n = int(n)
            self.means_ = c.arr([list(t) for t in c.mat("u%d" % i, n, k)], float)
            self.weights_ = c.arr([c.real("w%d_%d" % (i, j), 0, 1) for j in range(n)], float)
            p = [[[c.real("p%d_%d" % (i, j), 0.125, 8)]] if k == 1 else MATRICES[(i + j) % len(MATRICES)] for j in range(n)]
            self.precisions_ = c.arr(p, float)
            if listed:
                self.means_ = c.arr([[(-1.0) ** (i + j) * (0.5 + j)] * k for j in range(n)], float)
                self.weights_ = c.arr([self.weights_[0] if k == 1 else 0.375] + [1.0 / (j + 1) for j in range(1, n)], float)
                self.precisions_ = c.arr([[[2.0 - 0.5 * j]] if k == 1 else MATRICES[(i + j) % len(MATRICES)] for j in range(n)], float)
            return self

    mix = types.ModuleType("sklearn.mixture")
    mix.GaussianMixture = GaussianMixture
    top = types.ModuleType("sklearn")
    top.mixture = mix
    top.__path__ = []
    c.stub("sklearn", top)
    c.stub("sklearn.mixture", mix)


def score(c, m, q):
    s = 0.0
    k = len(q)
    for j in range(len(m.weights_)):
        d = [q[a] - m.means_[j][a] for a in range(k)]
        # as vector, matrix, vector
        t = [total([d[a] * m.precisions_[j][a][b] for a in range(k)]) for b in range(k)]
        s = s + m.weights_[j] * c.np.exp(-0.5 * total([t[b] * d[b] for b in range(k)]))
    return s


def model(c, labels, order=1, cols=1, queries=1, refit=False, dtype=int):
    made = []
    install(c, made, len(labels) > 8)
    if c.symbolic:
        c.st.sort_branch = True
    n = len(labels)
    # the first column tells the samples apart
    k = max(cols - 1, 1)
    t = [list(r) for r in c.mat("x", n, k)] if n <= 8 else [[v] * k for v in mixed(c, "x", n, (n // 2,))]
    x = [[0.25 * i] + r for i, r in enumerate(t)]
    x = [r[:cols] for r in x]
    index, reg = c.int("index", 1, 500), c.real("r", 0, 2)
    m = c.db.GaussianMixtureModel(order, index, reg)
    if refit:
        m.fit(c.arr([[0.0] * cols, [1.0] * cols], float), c.np.array([11, -4], int))
        index, reg = c.int("index2", 1, 500), c.real("r2", 0, 2)
        m.index, m.regularize = index, reg
    old = len(made)
    m.fit(c.arr(x, float), c.np.array(labels, dtype))
    c.check(m.order == order, "order")
    by = {}
    for l in sorted(set(labels)):
        want = [r for r, k in zip(x, labels) if k == l]
        for g in made[old:]:
            rows = sorted(g.rows, key=lambda r: float(r[0]))
            if [float(r[0]) for r in rows] == [float(r[0]) for r in want]:
                by[l] = g
                for a, b in zip(rows, want):
                    c.close(a, b, 0.0, "samples of the label")
    c.check(len(by) == len(set(labels)), "one mixture per label on exactly its samples")
    if len(by) < len(set(labels)):
        return
    for g in by.values():
        c.check(c.all([g.kw["n_components"] == order, g.kw["max_iter"] == index, g.kw["reg_covar"] == reg]), "order, iterations and regularisation of the mixture")
        c.check(g.kw["covariance_type"] == "full", "full covariance")
    if queries <= 4:
        q = [list(t) for t in c.mat("q", queries, cols)]
    else:
        q = mixed(c, "q", queries * cols, (queries * cols - 1,))
        q = [q[i * cols:(i + 1) * cols] for i in range(queries)]
    v = m.predict(c.arr(q, float))
    c.check(tuple(v.shape) == (queries, len(by)), "one row per query, one column per class")
    for i in range(queries):
        row = [int(t) for t in v[i]]
        c.check(sorted(row) == sorted(by), "every label once")
        for a, b in zip(row[:-1], row[1:]):
            c.check(score(c, by[a], q[i]) >= score(c, by[b], q[i]) - 1e-9, "descending score")


def reject(c):
    made = []
    install(c, made)
    m = c.db.GaussianMixtureModel()
    np = c.np
    c.check(c.raises(lambda: m.predict(np.zeros((1, 1))), ValueError, RuntimeError), "predict before fit")
    x, y = np.array([[0.0, 1.0], [2.0, 1.0], [0.5, 0.0]]), np.array([1, 0, 1])
    for a in (np.zeros(3), np.zeros((3, 0)), np.zeros((0, 2)), np.zeros((3, 2, 1))):
        c.check(c.raises(lambda: m.fit(a, y), ValueError), "samples of any other shape")
    c.check(c.raises(lambda: m.fit(x, y[:2]), ValueError), "labels missing")
    c.check(c.raises(lambda: m.fit(x, np.array([1.0, 0.0, 1.0])), TypeError, ValueError), "labels not integers")
    c.check(not made, "no mixture for rejected samples")
    m.fit(x, y)
    c.check([g.kw["n_components"] for g in made] == [10, 10] and [g.kw["max_iter"] for g in made] == [100, 100], "defaults")
    for a in (np.zeros(2), np.zeros((1, 3)), np.zeros((1, 1)), np.zeros((0, 2))):
        c.check(c.raises(lambda: m.predict(a), ValueError), "query of any other shape")
    c.check(tuple(m.shape) == (2,), "shape")


def instances(tier):
    out = []

    def add(fn, **k):
        out.append(dict(name=fn + " " + " ".join("%s %s" % t for t in k.items()), fn=fn, kw=k, budget=250 if tier == "quick" else 1500))
    add("model", labels=[0, 1, 0, 1])
    add("model", labels=[3, -2, 3], order=2)
    add("model", labels=[1000003, -7, -7], order=2, cols=2)
    add("model", labels=[5, 2, 9, 5])
    add("model", labels=[4, 4], order=3)
    add("model", labels=[0, 1], order=3)
    add("model", labels=[6, 1, 6], cols=2, queries=2)
    add("model", labels=[200, 3, 200], dtype="uint8")
    add("model", labels=[8, 3], refit=True)
    add("model", labels=[k % 3 * 2 - 1 for k in range(30)], cols=2, queries=6)
    add("model", labels=[k % 2 for k in range(120)], order=4, queries=5)
    add("reject")
    if tier == "thorough":
        add("model", labels=[5, 2, 9, 5], order=2)
        add("model", labels=[5, 2, 9, 5], order=2, cols=2)
        add("model", labels=[4, 3, 2, 1], order=1)
    return out
