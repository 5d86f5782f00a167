"""Parameters are accepted exactly when they lie in their documented domain."""
import types

BOUNDS = ("every numeric parameter of every constructor, property, filter, response, delay and transform with a documented domain, one or two symbolic at a time: real values in [-1000, 1000], integers in [-5, 20]; "
          "style names of every class in five letter cases and listed wrong names; shapes from 0 to 3 dimensions of lengths 0 to 8")
ASSUMPTIONS = ["NaN and infinite values are outside of the encoding", "a PID limit of exactly zero is left open, since code and message differ", "acceptance of IIR designs is decided for listed frequencies, orders and counts; rejection for all values",
               "a Hann or Blackman design of order one, whose window is zero throughout, is rejected as well", "FIR and IIR designs are accepted when their search is reached (FIR) or completed (IIR)"]


class Reached(Exception):
    pass


def stop(c, *names):
    """functions of scipy that only parameters inside their domain reach"""
    def fn(*a, **k):
        raise Reached()
    for n in names:
        c.stub("scipy.signal." + n, fn)


def reach(fn):
    def go():
        try:
            fn()
        except Reached:
            pass
    return go


def verdict(c, fn, inside, what):
    """fn is accepted exactly when inside; returns whether it was"""
    r = c.raises(fn, ValueError)
    c.check(c.no(inside) if r else inside, what)
    return not r


def between(c, lo, v, hi, open_=False):
    if open_:
        return c.both(v > lo, v < hi)
    t = []
    if lo is not None:
        t.append(v >= lo)
    if hi is not None:
        t.append(v <= hi)
    return c.all(t)


# property: (make, attribute, kind, lo, hi, signal)
def mk(c, cls):
    d = c.db
    return dict(
        goertzel=lambda: d.GoertzelFilter(b=[1.0, 0.5], frequency=0.25),
        exponential=lambda: d.ComplexExponentialFilter(0.25),
        bandpass=lambda: d.ComplexBandpassFilter(frequency=0.25, rate=0.5),
        frequency=lambda: d.ComplexFrequencyFilter(frequency=0.25, rate=0.5),
        polynomial=lambda: d.PolynomialRateFilter(rate=1.5, order=1),
        polyphase=lambda: d.PolyphaseRateFilter(rate=1.5),
        rank=lambda: d.RankFilter(index=1, order=2),
        pid=lambda: d.PidFilter(b=[1.0, 0.5, 0.25]),
        gaussian=lambda: d.GaussianModel(0.5),
        mixture=lambda: d.GaussianMixtureModel(2, 10, 0.5),
    )[cls]


SIGNAL = dict(goertzel=[1.0, 0.5, -1.0, 2.0], exponential=[0.25, 0.5, -0.125], bandpass=[1.0 + 0j, 1j, 0.5 - 1j], frequency=[1.0 + 0j, 1j, 1j, -1.0], polynomial=[1.0, 2.0, -1.0, 0.5], polyphase=[1.0, 2.0, -1.0],
              rank=[1.0, 3.0, 2.0], pid=[1.0, 2.0, -1.0])


def run(c, cls, f):
    if cls not in SIGNAL:
        return []
    y = f.filter(c.arr(SIGNAL[cls], complex if any(isinstance(t, complex) for t in SIGNAL[cls]) else float))
    return [t for p in (y if isinstance(y, tuple) else (y,)) for t in p]


def sk(c):
    mix = types.ModuleType("sklearn.mixture")
    mix.GaussianMixture = object
    top = types.ModuleType("sklearn")
    top.mixture = mix
    top.__path__ = []
    c.stub("sklearn", top)
    c.stub("sklearn.mixture", mix)


def assign(c, cls, attr, kind, lo, hi):
    """a property: accepted values read back, rejected ones leave everything as it was"""
    if cls == "mixture":
        sk(c)
    f, g = mk(c, cls)(), mk(c, cls)()
    if cls in SIGNAL and cls != "polynomial":
        run(c, cls, f), run(c, cls, g)
    v = c.real("v", -1000, 1000) if kind == "f" else c.int("v", -5, 20)
    if cls == "pid":
        c.assume(v != 0)
    old = getattr(f, attr)
    ok = verdict(c, lambda: setattr(f, attr, v), between(c, lo, v, hi), "%s of %s" % (attr, cls))
    if ok:
        c.close(getattr(f, attr), v, 0.0, "%s of %s reads back" % (attr, cls))
    else:
        c.close(getattr(f, attr), old, 0.0, "%s of %s after a rejection" % (attr, cls))
        c.close(run(c, cls, f), run(c, cls, g), 1e-12, "%s after a rejected %s" % (cls, attr))


def construct(c, cls, attr, kind, lo, hi):
    """one constructor parameter"""
    if cls == "mixture":
        sk(c)
    d = c.db
    v = c.real("v", -1000, 1000) if kind == "f" else c.int("v", -5, 20)
    make = {
        ("goertzel", "frequency"): lambda: d.GoertzelFilter(b=[1.0, 0.5], frequency=v),
        ("exponential", "phase"): lambda: d.ComplexExponentialFilter(v),
        ("bandpass", "frequency"): lambda: d.ComplexBandpassFilter(frequency=v, rate=0.5),
        ("bandpass", "rate"): lambda: d.ComplexBandpassFilter(frequency=0.5, rate=v),
        ("frequency", "frequency"): lambda: d.ComplexFrequencyFilter(frequency=v, rate=0.5),
        ("frequency", "rate"): lambda: d.ComplexFrequencyFilter(frequency=0.5, rate=v),
        ("polynomial", "rate"): lambda: d.PolynomialRateFilter(rate=v, order=2),
        ("polynomial", "order"): lambda: d.PolynomialRateFilter(rate=1.5, order=v),
        ("polyphase", "rate"): lambda: d.PolyphaseRateFilter(rate=v),
        ("gaussian", "regularize"): lambda: d.GaussianModel(v),
        ("mixture", "order"): lambda: d.GaussianMixtureModel(v, 10, 0.5),
        ("mixture", "regularize"): lambda: d.GaussianMixtureModel(2, 10, v),
        ("mixture", "index"): lambda: d.GaussianMixtureModel(2, v, 0.5),
    }
    box = []
    if verdict(c, lambda: box.append(make[cls, attr]()), between(c, lo, v, hi), "%s of %s" % (attr, cls)):
        c.close(getattr(box[0], attr), v, 0.0, "%s of %s reads back" % (attr, cls))


def pair(c, cls):
    """two integer parameters of a constructor"""
    if cls == "window":
        stop(c, "get_window")
    d = c.db
    if cls == "derivative":
        a, b = c.int("a", -1, 5), c.int("b", -1, 10)
        T = {1: (1, 2, 4), 2: (2, 4, 6, 8), 3: (4, 6, 8)}
        inside = c.any([c.both(a == k, b == t) for k in T for t in T[k]])
        verdict(c, lambda: d.DerivativeFilter(a, b), inside, "derivative and order")
    elif cls == "integral":
        a = c.int("a", -3, 8)
        verdict(c, lambda: d.IntegralFilter(a), between(c, 0, a, 4), "order")
    elif cls == "rank":
        a, b = c.int("a", -2, 6), c.int("b", -2, 4)
        verdict(c, lambda: d.RankFilter(a, b), c.both(a >= 0, a <= b), "index and order")
    elif cls == "window":
        a = c.int("a", -3, 40)
        verdict(c, reach(lambda: d.WindowFilter("Hamming", a)), a >= 0, "order")
    elif cls == "diversity":
        a = c.int("a", -3, 6)
        verdict(c, lambda: d.DiversityModel("Euclidean", a), a >= 0, "order")


def wavelet(c, style, orders):
    a = c.int("a", -1, 31)
    verdict(c, lambda: c.db.WaveletTransform(style, a), c.any([a == t for t in orders]), "order")


def fir_design(c, which):
    stop(c, "firwin")
    f, order, count = 0.25, 4, 1
    if which == "frequency":
        f = c.real("f", -1000, 1000)
        inside = between(c, 0, f, 1, True)
    elif which == "order":
        order = c.int("n", -5, 20)
        inside = order > 0
    elif which == "count":
        count = c.int("n", -5, 20)
        inside = count > 0
    else:
        f, order, count = c.real("f", -2, 2), c.int("n", -5, 20), c.int("m", -5, 20)
        inside = c.all([f > 0, f < 1, order > 0, count > 0])

    def go():
        for kw in (dict(), dict(complement=True)):
            reach(lambda: c.db.FirFilter(style="Kaiser", frequency=f, order=order, count=count, **kw))()
    verdict(c, go, inside, "design parameters")


def iir_design(c, style, which):
    f, order, count = 0.25, 2, 1
    if which == "frequency":
        f = c.real("f", -1000, 1000)
        bad = c.either(f <= 0, f >= 1)
    elif which == "order":
        order = c.int("n", -20, 0)
        bad = True
    else:
        count = c.int("n", -20, 0)
        bad = True
    c.assume(bad)
    for k in (False, True):
        c.check(c.raises(lambda: c.db.IirFilter(style=style, frequency=f, order=order, count=count, complement=k), ValueError), "design parameters outside of their domain")


def iir_accept(c, style, f, order, count):
    c.db.IirFilter(style=style, frequency=f, order=order, count=count)
    c.check(True, "accepted")


def queries(c, cls, which):
    """length and count of response and delay"""
    stop(c, "freqz", "group_delay")
    make = (lambda: c.db.FirFilter(b=[1.0, 0.5])) if cls == "fir" else (lambda: c.db.IirFilter(a=[0.0, 0.5], b=[0.25, 0.25]))
    f = make()
    n, m = 4, 1
    if "length" in which:
        n = c.int("n", -5, 5)
    if "count" in which:
        m = c.int("m", -5, 3)
    fn = (lambda: f.response(length=n, count=m)) if which.startswith("response") else (lambda: f.delay(length=n, count=m))
    verdict(c, reach(fn), c.both(n >= 1, m >= 1), which)


def zdomain(c):
    f = c.real("f", -1000, 1000)
    c.assume(f <= 0)
    for b in (True, False):
        c.check(c.raises(lambda: c.db.ZTransform.transform([1.0, 2.0], [1.0], f, b), ValueError), "frequency")


def zshape(c):
    u, v = list(c.vec("u", 2, 0, 1)), list(c.vec("v", 2, 0, 1))
    for b in (True, False):
        for p, q in (([], v), ([0.0, 0.0], [1.0]), ([1.0, 1.0], []), ([1.0, 1.0], [0.0]), ([0.0], v)):
            c.check(c.raises(lambda: c.db.ZTransform.transform(p, q, 0.1, b), ValueError), "empty or zero polynomial")


def zero_window(c, which):
    """windows that are zero throughout, empty or too long"""
    x = c.vec("x", 3)
    T = c.db.FourierTransform.transform if which == "fourier" else (lambda a, b: c.db.PsdTransform.transform(a, b, 1))
    b = c.vec("b", 2)
    inside = c.any([abs(t) > 1e-6 for t in b])
    c.assume(c.either(inside, c.all([t == 0 for t in b])))
    verdict(c, lambda: T(x, b), inside, "window of zeros")
    for p, q in (([], [1.0]), ([], []), (x, []), (x, [1.0] * 4), ([1.0], [1.0, 1.0])):
        c.check(c.raises(lambda: T(p, q), ValueError, IndexError), "empty, or a window longer than the signal")
    if which == "fourier":
        c.check(c.raises(lambda: T(x, [1.0] * 4), ValueError), "window longer than the signal")


def wavelet_shape(c, rows, cols, inverse):
    w = c.db.WaveletTransform("Haar", 1)
    n = c.int("n", -2, 4)
    x = c.np.zeros((rows, cols))
    if rows > 1 and cols > 1 or not (rows == cols == 1):
        ok = lambda k: (rows == 1 or rows % 2 ** k == 0) and (cols == 1 or cols % 2 ** k == 0)
        inside = c.any([n == k for k in range(1, 5) if ok(k)])
        verdict(c, lambda: w.transform(x, n, inverse), inside, "count and shape")


def complex_shape(c):
    d = c.db.ComplexTransform
    for shape in ((0,), (2, 3), (4, 2), (3, 0), (1, 0), (1, 2, 2), (0, 3)):
        c.check(c.raises(lambda: d.transform(c.np.zeros(shape)), ValueError), "shape %s" % (shape,))
    for shape in ((1,), (3,), (5,), (3, 1), (3, 4), (1, 4), (1, 1)):
        c.check(not c.raises(lambda: d.transform(c.np.zeros(shape, complex if 3 not in shape[:1] or len(shape) == 1 else float)), ValueError), "shape %s" % (shape,))


def goertzel_window(c):
    b = c.vec("b", 2)
    inside = c.any([abs(t) > 1e-6 for t in b])
    c.assume(c.either(inside, c.all([t == 0 for t in b])))
    verdict(c, lambda: c.db.GoertzelFilter(b, 0.25), inside, "window of zeros")
    c.check(c.raises(lambda: c.db.GoertzelFilter([], 0.25), ValueError), "empty window")


def exponential_signal(c, n):
    f = c.db.ComplexExponentialFilter(0.25)
    x = c.vec("x", n, -3, 3)
    ok = verdict(c, lambda: f.filter(x), c.all([abs(t) <= 1 for t in x]), "frequencies")
    if not ok:
        c.close(f.phase, 0.25, 0.0, "phase after a rejection")
        c.close(list(f.filter([0.5, 0.5])), list(c.db.ComplexExponentialFilter(0.25).filter([0.5, 0.5])), 1e-12, "output after a rejection")


def exponential_complex(c):
    f = c.db.ComplexExponentialFilter(0.25)
    x = c.vec("x", 2, -0.5, 0.5, kind="c")
    zero = c.all([t.imag == 0 for t in x])
    r = c.raises(lambda: f.filter(x), ValueError)
    if r:
        c.check(c.no(zero), "complex frequencies")
        c.close(f.phase, 0.25, 0.0, "phase after a rejection")
    else:
        c.check(zero, "complex frequencies")


def first_term(c, n):
    """a recursive array starts with zero"""
    a = c.vec("a", n, -1, 1)
    verdict(c, lambda: c.db.IirFilter(a=a, b=[1.0, 0.5]), a[0] == 0, "zeroth recursive term")
    z = c.vec("z", n, -1, 1, kind="c")
    verdict(c, lambda: c.db.IirFilter(a=z, b=[1.0, 0.5]), c.both(z[0].real == 0, z[0].imag == 0), "zeroth recursive term")


def empties(c):
    """empty signals, and values that are not scalar, are rejected and change nothing"""
    d = c.db
    x = list(c.vec("x", 2))
    for name, make in (("fir", lambda: d.FirFilter(b=[1.0, 0.5])), ("iir", lambda: d.IirFilter(a=[0.0, 0.5], b=[1.0, 0.5])), ("derivative", lambda: d.DerivativeFilter(1, 2)), ("integral", lambda: d.IntegralFilter(1)),
                       ("pid", lambda: d.PidFilter([1.0, 0.5, 0.25])), ("rank", lambda: d.RankFilter(0, 1)), ("polyphase", lambda: d.PolyphaseRateFilter(1.0)), ("goertzel", lambda: d.GoertzelFilter([1.0, 1.0], 0.25))):
        f, g = make(), make()
        f.filter(c.arr(x)), g.filter(c.arr(x))
        for e in ([], c.np.zeros(0)):
            c.check(c.raises(lambda: f.filter(e), ValueError), "%s: empty signal" % name)
        if name not in ("goertzel",):
            for e in ([1.0], c.np.zeros(2)):
                c.check(c.raises(lambda: f.reset(e), ValueError), "%s: reset to something that is not scalar" % name)
        c.close(list(f.filter(c.arr(x))), list(g.filter(c.arr(x))), 1e-12, "%s after a rejection" % name)
    for n in (0, 1, 2, 4):
        c.check(c.raises(lambda: d.PidFilter([1.0] * n), ValueError), "PID coefficients")
    for e in ([], [1.0], [[1.0, 2.0]]):
        c.check(c.raises(lambda: d.PolynomialRateFilter(1.5).filter(e), ValueError), "polynomial: signal")
    w = d.WindowFilter("Hann", 3)
    for e in ([], [1.0] * 3, [1.0] * 5, [[1.0] * 4]):
        c.check(c.raises(lambda: w.filter(e), ValueError), "window: signal")
    for e in ([],):
        c.check(c.raises(lambda: d.FirFilter(b=e, s=e), ValueError), "FIR without anything")


CASES = (str.title, str.upper, str.lower, str.swapcase, lambda s: "".join(t.upper() if k % 2 else t.lower() for k, t in enumerate(s)))
WRONG = ("", "Square", "Hanning", "Butter", "Kaiser ", "Haa", "Euclid", "Hann Hann")


def styles(c, cls, wrong):
    d = c.db
    x = [0.5, -1.0, 2.0, 0.25]
    fir = lambda s: list(d.FirFilter(style=s, frequency=0.25, order=2).b)
    iir = lambda s: list(d.IirFilter(style=s, frequency=0.25, order=1).b)
    window = lambda s: list(d.WindowFilter(s, 3).filter(x))
    wavelet_ = lambda s: list(d.WaveletTransform(s, dict(Haar=1, Daubechies=3, Symmlet=7).get(s.title(), 5)).b[0][0])

    def diversity(s):
        m = d.DiversityModel(s, 1)
        return list(m.fit([[0.0, 0.0], [1.0, 2.0], [4.0, 1.0]]))
    fn, names = dict(fir=(fir, ("Blackman", "Hamming", "Hann", "Kaiser")), iir=(iir, ("Bessel", "Butterworth", "Chebyshev")), window=(window, ("Blackman", "Hamming", "Hann", "Kaiser")),
                     wavelet=(wavelet_, ("Coiflet", "Daubechies", "Haar", "Symmlet")), diversity=(diversity, ("Chebyshev", "Euclidean", "Geometric", "Manhattan")))[cls]
    if wrong:
        w = WRONG[c.choice("wrong", len(WRONG))]
        c.check(c.raises(lambda: fn(w), ValueError), "style %r" % w)
        return
    n = names[c.choice("name", len(names))]
    k = c.choice("case", len(CASES))
    c.close(fn(CASES[k](n)), fn(n), 1e-12, "style %s in any letter case" % n)


PROPS = [("goertzel", "frequency", "f", -1, 1), ("exponential", "phase", "f", -1, 1), ("bandpass", "frequency", "f", -1, 1), ("bandpass", "rate", "f", 0, 1), ("frequency", "frequency", "f", -1, 1), ("frequency", "rate", "f", 0, 1),
         ("polynomial", "rate", "f", 0, None), ("polynomial", "order", "i", 1, None), ("polyphase", "rate", "f", 0, 256), ("gaussian", "regularize", "f", 0, None), ("mixture", "regularize", "f", 0, None), ("mixture", "index", "i", 1, None)]


def instances(tier):
    out = []

    def add(fn, **k):
        out.append(dict(name=fn + " " + " ".join("%s %s" % t for t in k.items()), fn=fn, kw=k, budget=200))
    for p in PROPS:
        kw = dict(zip(("cls", "attr", "kind", "lo", "hi"), p))
        add("assign", **kw)
        add("construct", **kw)
    add("assign", cls="rank", attr="index", kind="i", lo=0, hi=2)
    add("assign", cls="pid", attr="limit", kind="f", lo=0, hi=None)
    add("construct", cls="mixture", attr="order", kind="i", lo=1, hi=None)
    for k in ("derivative", "integral", "rank", "window", "diversity"):
        add("pair", cls=k)
    for s, o in (("Haar", [1]), ("Daubechies", list(range(3, 20, 2))), ("Symmlet", list(range(7, 20, 2))), ("Coiflet", list(range(5, 30, 6)))):
        add("wavelet", style=s, orders=o)
    for w in ("frequency", "order", "count", "all"):
        add("fir_design", which=w)
    for s in ("Bessel", "Butterworth", "Chebyshev"):
        for w in ("frequency", "order", "count"):
            add("iir_design", style=s, which=w)
        for f, o, n in ((0.015625, 1, 1), (0.5, 2, 3), (0.984375, 3, 1), (0.25, 5, 2)):
            add("iir_accept", style=s, f=f, order=o, count=n)
    for k in ("fir", "iir"):
        for w in ("response length count", "delay length count"):
            add("queries", cls=k, which=w)
    add("zdomain")
    add("zshape")
    add("zero_window", which="fourier")
    add("zero_window", which="psd")
    for r, k in ((1, 4), (4, 1), (2, 6), (8, 4), (3, 4), (1, 6), (5, 1), (8, 8), (4, 7)):
        for i in (False, True):
            add("wavelet_shape", rows=r, cols=k, inverse=i)
    add("complex_shape")
    add("goertzel_window")
    add("exponential_signal", n=1)
    add("exponential_signal", n=2)
    add("exponential_complex")
    add("first_term", n=1)
    add("first_term", n=2)
    add("empties")
    for k in ("fir", "iir", "window", "wavelet", "diversity"):
        for w in (False, True):
            add("styles", cls=k, wrong=w)
    return out
