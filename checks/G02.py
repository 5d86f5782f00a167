"""Arguments stay as they are, results are new arrays, and instances are independent of each other."""
import types

BOUNDS = ("every filter, transform and model class, constructor, filter, reset, transform, fit and predict calls with symbolic real, complex or integer arrays of 2 to 9 elements; results and arguments overwritten afterwards; "
          "instances built from the same arrays and driven in turn")
ASSUMPTIONS = ["arrays assigned to properties are kept by reference and are not claimed", "writing into the coefficient bank that PolyphaseRateFilter.b returns is not a use of an instance",
               "sklearn.mixture.GaussianMixture is a stand-in whose result is determined by the samples it is given"]
T = dict(f=float, c=complex, i=int)


def sk(c):
    class GaussianMixture:
        def __init__(self, n_components=1, **k):
            self.n = int(n_components)

        def fit(self, x, y=None):
            k = len(x[0])
            self.means_ = c.arr([[t + 0.5 * j for t in x[0]] for j in range(self.n)], float)
            self.weights_ = c.arr([0.25 + 0.5 * j for j in range(self.n)], float)
            self.precisions_ = c.arr([[[1.0 + j if a == b else 0.0 for b in range(k)] for a in range(k)] for j in range(self.n)], float)
            return self
    mix = types.ModuleType("sklearn.mixture")
    mix.GaussianMixture = GaussianMixture
    top = types.ModuleType("sklearn")
    top.mixture = mix
    top.__path__ = []
    c.stub("sklearn", top)
    c.stub("sklearn.mixture", mix)


# class: (constructor arrays: {name: (shape, kind)}, call arrays, make, call)
def table(c, d, K):
    """K: kind of the signals"""
    R = "f" if K == "c" else K          # for signals that must be real
    sig = lambda n, k=K: dict(x=((n,), k))
    no = dict()
    return dict(
        fir=(dict(b=((3,), K), s=((3,), K)), sig(3), lambda a: d.FirFilter(b=a["b"], s=a["s"]), lambda f, a: f.filter(a["x"])),
        firb=(dict(b=((3,), K)), sig(3), lambda a: d.FirFilter(b=a["b"]), lambda f, a: f.filter(a["x"])),
        iir=(dict(a=((2,), K), b=((3,), K), s=((3,), K)), sig(2), lambda a: d.IirFilter(a=a["a"], b=a["b"], s=a["s"]), lambda f, a: f.filter(a["x"])),
        iirsame=(dict(a=((3,), K), b=((3,), K)), sig(2), lambda a: d.IirFilter(a=a["a"], b=a["b"]), lambda f, a: f.filter(a["x"])),
        derivative=(no, sig(3), lambda a: d.DerivativeFilter(1, 2), lambda f, a: f.filter(a["x"])),
        integral=(no, sig(3), lambda a: d.IntegralFilter(2), lambda f, a: f.filter(a["x"])),
        pid=(dict(b=((3,), K)), sig(3), lambda a: d.PidFilter(a["b"]), lambda f, a: f.filter(a["x"])),
        rank=(no, sig(3, R), lambda a: d.RankFilter(1, 2), lambda f, a: f.filter(a["x"])),
        goertzel=(dict(b=((2,), "p")), sig(4), lambda a: d.GoertzelFilter(a["b"], 0.5), lambda f, a: f.filter(a["x"])),
        exponential=(no, dict(x=((2,), "u")), lambda a: d.ComplexExponentialFilter(0.25), lambda f, a: f.filter(a["x"])),
        bandpass=(no, sig(2, "c"), lambda a: d.ComplexBandpassFilter(0.5, 0.25), lambda f, a: f.filter(a["x"])),
        frequency=(no, sig(2, "c1"), lambda a: d.ComplexFrequencyFilter(0.5, 0.25), lambda f, a: f.filter(a["x"])),
        polynomial=(no, sig(4, R), lambda a: d.PolynomialRateFilter(1.5, 1), lambda f, a: f.filter(a["x"])),
        polynomial2=(no, sig(4, R), lambda a: d.PolynomialRateFilter(1.5, 2), lambda f, a: f.filter(a["x"])),
        polyphase=(no, sig(3, R), lambda a: d.PolyphaseRateFilter(1.5), lambda f, a: f.filter(a["x"])),
        window=(no, sig(4), lambda a: d.WindowFilter("Hamming", 3), lambda f, a: f.filter(a["x"])),
        complex1=(no, sig(3, "c"), lambda a: d.ComplexTransform, lambda f, a: f.transform(a["x"])),
        complex1g=(no, sig(3, "c"), lambda a: d.ComplexTransform, lambda f, a: f.transform(a["x"], False)),
        complex3=(no, dict(x=((3, 2), R)), lambda a: d.ComplexTransform, lambda f, a: f.transform(a["x"])),
        complex3g=(no, dict(x=((3, 2), R)), lambda a: d.ComplexTransform, lambda f, a: f.transform(a["x"], False)),
        fourier=(no, dict(x=((4,), K), b=((4,), "p")), lambda a: d.FourierTransform, lambda f, a: f.transform(a["x"], a["b"])),
        fourieri=(no, dict(x=((4,), K), b=((4,), "p")), lambda a: d.FourierTransform, lambda f, a: f.transform(a["x"], a["b"], True)),
        fourierz=(no, dict(x=((4,), K), b=((4,), "z")), lambda a: d.FourierTransform, lambda f, a: f.transform(a["x"], a["b"], True)),
        psd=(no, dict(x=((5,), K), b=((4,), "p")), lambda a: d.PsdTransform, lambda f, a: f.transform(a["x"], a["b"], 1)),
        psds=(no, dict(x=((5,), K), b=((4,), "p")), lambda a: d.PsdTransform, lambda f, a: f.transform(a["x"], a["b"], 1, True)),
        haar=(no, sig(4), lambda a: d.WaveletTransform("Haar", 1), lambda f, a: f.transform(a["x"], 2)),
        haari=(no, sig(4), lambda a: d.WaveletTransform("Haar", 1), lambda f, a: f.transform(a["x"], 2, True)),
        haar2=(no, dict(x=((2, 2), K)), lambda a: d.WaveletTransform("Haar", 1), lambda f, a: f.transform(a["x"], 1)),
        haar2i=(no, dict(x=((2, 2), K)), lambda a: d.WaveletTransform("Haar", 1), lambda f, a: f.transform(a["x"], 1, True)),
        daubechies=(no, sig(4), lambda a: d.WaveletTransform("Daubechies", 3), lambda f, a: f.transform(a["x"], 1)),
        coiflet=(no, sig(2), lambda a: d.WaveletTransform("Coiflet", 5), lambda f, a: f.transform(a["x"], 1, True)),
        z=(no, dict(u=((3,), "zu"), v=((2,), "zv")), lambda a: d.ZTransform, lambda f, a: f.transform(a["u"], a["v"], 0.25)),
        zi=(no, dict(u=((3,), "zu"), v=((2,), "zv")), lambda a: d.ZTransform, lambda f, a: f.transform(a["u"], a["v"], 0.25, False)),
        z0=(no, dict(u=((4,), "zu0"), v=((2,), "zv0")), lambda a: d.ZTransform, lambda f, a: f.transform(a["u"], a["v"], 0.25)),
        diversity=(no, dict(x=((4, 1), R)), lambda a: d.DiversityModel("Manhattan", 1), lambda f, a: f.fit(a["x"])),
        gaussian=(no, dict(x=((3, 1), R), y=((3,), "y"), q=((1, 1), R)), lambda a: d.GaussianModel(0.5), lambda f, a: (f.fit(a["x"], a["y"]), f.predict(a["q"]))[1]),
        mixture=(no, dict(x=((3, 1), R), y=((3,), "y"), q=((1, 1), R)), lambda a: d.GaussianMixtureModel(2), lambda f, a: (f.fit(a["x"], a["y"]), f.predict(a["q"]))[1]),
    )


FIX = dict(z=[0.0, 1.0, 0.5, 0.0], zu=[1.0, 3.0, 2.0], zv=[1.0, 0.5], zu0=[0.0, 2.0, 6.0, 4.0], zv0=[0.0, 2.0], y=[4, -1, 4])


def values(c, name, shape, kind):
    n = 1
    for t in shape:
        n *= t
    if kind in FIX:
        v, k = list(FIX[kind]), "i" if kind == "y" else "f"
    elif kind == "u":
        v, k = list(c.vec(name, n, -1, 1)), "f"
    elif kind == "p":
        v, k = list(c.vec(name, n, 0.5, 2)), "f"
    elif kind == "c1":
        # unit magnitude, so that no root has to be taken
        v, k = [c.phasor("%s%d" % (name, j))[1] for j in range(n)], "c"
    else:
        v, k = list(c.vec(name, n, -4, 4, kind=kind)), kind
    return v, shape, k


def build(c, spec):
    """a new array of each of the values"""
    out = {}
    for name, (v, shape, k) in spec.items():
        a = c.arr(v, T[k])
        out[name] = a.reshape(shape) if len(shape) > 1 else a
    return out


def cells(r):
    out = []
    for p in (r if isinstance(r, tuple) else (r,)):
        out += [t for t in p.reshape(-1)]
    return out


def spoil(r, v):
    for p in (r if isinstance(r, tuple) else (r,)):
        p[...] = v


def unchanged(c, args, spec, what):
    for name, a in args.items():
        v, shape, k = spec[name]
        c.check(tuple(a.shape) == tuple(shape), "%s: shape of %s" % (what, name))
        c.close(list(a.reshape(-1)), v, 0.0, "%s: values of %s" % (what, name))


def setup(c, cls, K):
    if cls == "mixture":
        sk(c)
    ca, xa, make, call = table(c, c.db, K)[cls]
    if cls.startswith("iir"):
        v, shape, k = values(c, "a", *ca["a"])
        ca = dict(ca)
        cs = {n: values(c, n, *t) for n, t in ca.items() if n != "a"}
        cs["a"] = ([0 * v[0]] + [t * 0.25 for t in v[1:]] if K != "i" else [0] + v[1:], shape, k)
    else:
        cs = {n: values(c, n, *t) for n, t in ca.items()}
    xs = {n: values(c, n, *t) for n, t in xa.items()}
    return cs, xs, make, call


def untouched(c, cls, kind):
    cs, xs, make, call = setup(c, cls, kind)
    # the reference: an instance with arrays of its own
    g = make(build(c, cs))
    want = [list(cells(call(g, build(c, xs)))) for _ in range(2)]
    ca, xa = build(c, cs), build(c, xs)
    f = make(ca)
    unchanged(c, ca, cs, "constructor")
    y = call(f, xa)
    unchanged(c, ca, cs, "call")
    unchanged(c, xa, xs, "call")
    c.close(cells(y), want[0], 1e-12, "same result")
    # overwriting the arguments changes neither the result nor the instance
    for a in list(ca.values()) + list(xa.values()):
        a[...] = 3
    c.close(cells(y), want[0], 1e-12, "the result does not refer to the arguments")
    # overwriting the result changes neither the instance nor its arguments
    xb = build(c, xs)
    spoil(y, 2)
    z = call(f, xb)
    c.close(cells(z), want[1], 1e-12, "the instance does not refer to its arguments or results")
    spoil(z, 5)
    unchanged(c, xb, xs, "overwriting the result")


def independent(c, cls, kind):
    cs, xs, make, call = setup(c, cls, kind)
    g = make(build(c, cs))
    want = [list(cells(call(g, build(c, xs)))) for _ in range(2)]
    shared = build(c, cs)
    f, h = make(shared), make(shared)
    got = list(cells(call(h, build(c, xs))))
    call(f, build(c, xs)), call(f, build(c, xs))
    # change everything of f
    if not isinstance(f, type):
        if hasattr(f, "reset"):
            f.reset(7.0 if cls != "frequency" else 1j)
        for name in ("a", "b", "s"):
            if isinstance(getattr(type(f), name, None), property) and not (cls == "polyphase" and name == "b"):
                t = getattr(f, name)
                for p in ([q for r in t for q in r] if isinstance(t, tuple) else [t]):
                    if p.size:
                        p[...] = 1
    c.close(got, want[0], 1e-12, "another instance of the same arrays")
    c.close(cells(call(h, build(c, xs))), want[1], 1e-12, "another instance after this one was changed")
    n = make(build(c, cs))
    c.close(cells(call(n, build(c, xs))), want[0], 1e-12, "a later instance")
    unchanged(c, shared, cs, "use of the instances")


def defaults(c):
    """instances that were given nothing do not share what they start with"""
    d = c.db
    x = c.vec("x", 3)
    for make in (lambda: d.DerivativeFilter(2, 2), lambda: d.IntegralFilter(1), lambda: d.RankFilter(1, 2), lambda: d.FirFilter(b=[1.0, 2.0]), lambda: d.ComplexBandpassFilter(0.25, 0.5), lambda: d.ComplexFrequencyFilter(0.25, 0.5), lambda: d.PidFilter([1.0, 1.0, 1.0])):
        f, g = make(), make()
        old = list(g.s), list(g.b)
        f.s[:] = 3.0
        f.b[:] = 2.0
        c.close(list(g.s), old[0], 0.0, "state of another instance")
        c.close(list(g.b), old[1], 0.0, "coefficients of another instance")
        h = make()
        c.close(list(h.s), old[0], 0.0, "state of a later instance")
        c.close(list(h.b), old[1], 0.0, "coefficients of a later instance")
    f, g = d.ComplexBandpassFilter(0.25, 0.5), d.ComplexBandpassFilter(0.25, 0.5)
    u = c.arr(list(x), complex)
    f.filter(u)
    c.close(cells(g.filter(u)), cells(d.ComplexBandpassFilter(0.25, 0.5).filter(u)), 1e-12, "oscillator of another instance")
    p, q = d.PolyphaseRateFilter(1.0), d.PolyphaseRateFilter(1.0)
    p.filter(x)
    c.close(list(q.s), [0.0] * 15, 0.0, "state of another polyphase filter")
    f, g = d.DiversityModel("Manhattan", 1), d.DiversityModel("Manhattan", 1)
    f.fit(x.reshape(3, 1))
    c.close(list(g.fit(x[:2].reshape(2, 1))), [0.0, 0.0], 0.0, "diversity of another instance")


NAMES = ["fir", "firb", "iir", "iirsame", "derivative", "integral", "pid", "rank", "goertzel", "exponential", "bandpass", "frequency", "polynomial", "polynomial2", "polyphase", "window", "complex1", "complex1g", "complex3", "complex3g",
         "fourier", "fourieri", "fourierz", "psd", "psds", "haar", "haari", "haar2", "haar2i", "daubechies", "coiflet", "z", "zi", "z0", "diversity", "gaussian", "mixture"]
ONLY = dict(exponential="f", bandpass="c", frequency="c", complex1="c", complex1g="c", z="f", zi="f", z0="f", rank="fi", polynomial="fi", polynomial2="fi", polyphase="fi", complex3="fi", complex3g="fi", diversity="fi", gaussian="fi", mixture="fi",
            psd="f", psds="f")
STATELESS = ("complex", "fourier", "psd", "z", "polynomial", "window")


def instances(tier):
    out = []
    for n in NAMES:
        for k in ONLY.get(n, "fci"):
            out.append(dict(name="untouched %s %s" % (n, k), fn="untouched", kw=dict(cls=n, kind=k), budget=200))
            if not n.startswith(STATELESS) and k != "i":
                out.append(dict(name="independent %s %s" % (n, k), fn="independent", kw=dict(cls=n, kind=k), budget=200))
    out.append(dict(name="defaults", fn="defaults", kw={}, budget=200))
    return out
