"""Lists and arrays, integers and floating-point values give the same results."""
from checks.G02 import FIX, STATELESS, T, cells, setup, sk  # noqa

BOUNDS = ("every filter, transform and model class with symbolic real, complex or integer values, arrays of 2 to 9 elements, given as array, list, list of scalars of the array type and, for integers, as floating-point array and list; "
          "coefficients and states assigned as list and as array; scalar parameters as integer and as floating-point number")
ASSUMPTIONS = ["GaussianModel and GaussianMixtureModel document arrays only, so lists are not claimed for them", "integers are compared below the overflow of their type"]


def forms(c, K, nolist):
    """ways to write the same values"""
    def nest(v, shape, conv):
        v = [conv(t) for t in v]
        if len(shape) == 1:
            return v
        return [v[r * shape[1]:(r + 1) * shape[1]] for r in range(shape[0])]

    def arr(v, shape, k):
        a = c.arr(v, T[k])
        return a.reshape(shape) if len(shape) > 1 else a
    same = lambda t: t
    out = [("array", arr)]
    if not nolist:
        out.append(("list", lambda v, s, k: nest(v, s, same)))
        out.append(("list of scalars", lambda v, s, k: [r for r in arr(v, s, k)]))
    if K == "i":
        out.append(("floating-point array", lambda v, s, k: arr([1.0 * t for t in v], s, "f") if k == "i" else arr(v, s, k)))
        if not nolist:
            out.append(("floating-point list", lambda v, s, k: nest(v, s, (lambda t: 1.0 * t) if k == "i" else same)))
            out.append(("mixed list", lambda v, s, k: nest(v[:1], (1,), lambda t: 1.0 * t) + nest(v[1:], (len(v) - 1,), same) if k == "i" and len(s) == 1 else nest(v, s, same)))
    if K == "f":
        out.append(("complex array", None))
    return out


def same(c, cls, kind):
    cs, xs, make, call = setup(c, cls, kind)
    want = None
    for name, form in forms(c, kind, cls in ("gaussian", "mixture")):
        if form is None:
            continue
        keep = lambda n, t: n == "y"
        a = {n: (form(*t) if not keep(n, t) else c.arr(t[0], int)) for n, t in cs.items()}
        x = {n: (form(*t) if not keep(n, t) else c.arr(t[0], int)) for n, t in xs.items()}
        f = make(a)
        y = cells(call(f, x))
        y += cells(call(f, x))
        if want is None:
            want = y
        else:
            c.close(y, want, 1e-9, name)


def zero_imag(c, cls):
    """complex arrays whose imaginary parts are zero filter like real ones, for linear filters of complex signals"""
    cs, xs, make, call = setup(c, cls, "f")
    f, g = make({n: c.arr(t[0], float) for n, t in cs.items()}), make({n: c.arr(t[0], float) for n, t in cs.items()})
    y = cells(call(f, {n: c.arr(t[0], float) for n, t in xs.items()}))
    z = cells(call(g, {n: c.arr([v + 0j for v in t[0]], complex) for n, t in xs.items()}))
    c.close(z, y, 1e-9, "complex array with zero imaginary parts")


def assigned(c, cls, attr, kind, n, then):
    """arrays assigned to a property"""
    d = c.db
    x = list(c.vec("x", 2))
    v = list(c.vec("v", n, kind=kind))
    if attr == "a":
        v[0] = 0 * v[0]
    make = dict(fir=lambda: d.FirFilter(b=[1.0, 0.5, 0.25]), iir=lambda: d.IirFilter(a=[0.0, 0.5, 0.25], b=[1.0, 0.5, 0.25]), pid=lambda: d.PidFilter([1.0, 0.5, 0.25]), rank=lambda: d.RankFilter(1, 2), integral=lambda: d.IntegralFilter(2),
                derivative=lambda: d.DerivativeFilter(1, 2), polyphase=lambda: d.PolyphaseRateFilter(1.5))[cls]
    want = None
    for name, form in [("array", lambda: c.arr(v, T[kind])), ("list", lambda: list(v))] + ([("floating-point array", lambda: c.arr([1.0 * t for t in v], float)), ("floating-point list", lambda: [1.0 * t for t in v])] if kind == "i" else []):
        f = make()
        setattr(f, attr, form())
        y = list(f.filter(c.arr(x, float))) + list(f.filter(list(x)))
        if then and cls != "polyphase":
            f.reset(1.0 if cls != "iir" else 0.0)
            y += list(f.filter(c.arr(x, float)))
        if want is None:
            want = y
        else:
            c.close(y, want, 1e-9, "%s as %s" % (attr, name))


def diversity_state(c, kind):
    d = c.db
    v = list(c.vec("v", 2, kind=kind))
    x = list(c.vec("x", 1))
    want = None
    for name, form in [("float array", lambda: c.arr([[1.0 * t] for t in v], float)), ("array", lambda: c.arr([[t] for t in v], T[kind])), ("list", lambda: [[t] for t in v])]:
        m = d.DiversityModel("Manhattan", 1)
        m.s = form()
        y = list(m.fit(c.arr([x], float))) + [t for r in m.s for t in r]
        if want is None:
            want = y
        else:
            c.close(y, want, 1e-9, "state as %s" % name)


def scalar(c, cls):
    """scalar parameters and reset values"""
    d = c.db
    x = c.vec("x", 3)
    r = c.int("r", -4, 4)
    u = c.int("u", 0, 1)

    def go(k):
        if cls == "reset":
            out = []
            for f in (d.FirFilter(b=[1, 2, 3]), d.FirFilter(b=[1.0, 0.5]), d.IirFilter(a=[0.0, 0.5], b=[0.25, 0.25]), d.IirFilter(a=[0, 2], b=[3, 1]), d.RankFilter(1, 2), d.PidFilter([1, 2, 3])):
                f.reset(k(r))
                out += list(f.filter(x))
            return out
        if cls == "goertzel":
            f = d.GoertzelFilter([1, 2, 1], k(u))
            out = list(f.filter(x))
            f.frequency = k(1 - u)
            return out + list(f.filter(x))
        if cls == "exponential":
            f = d.ComplexExponentialFilter(k(u))
            return list(f.filter(c.arr([0.25 * t for t in x], float)))
        if cls == "bandpass":
            f = d.ComplexBandpassFilter(k(u), k(1))
            return cells(f.filter(c.arr(list(x), complex)))
        if cls == "polyphase":
            f = d.PolyphaseRateFilter(k(1) + k(1))
            f.reset(k(r))
            return list(f.filter(x))
        if cls == "polynomial":
            return list(d.PolynomialRateFilter(k(2), 2).filter(x)) + list(d.PolynomialRateFilter(k(1), 1).filter(x))
        if cls == "pid":
            f = d.PidFilter([0, k(1), 0])
            f.limit = k(3)
            return list(f.filter(x))
        if cls == "z":
            return cells(d.ZTransform.transform([k(1), k(3), k(2)], [k(1)], k(1))) + cells(d.ZTransform.transform([k(1), k(3), k(2)], [k(1)], k(1), False))
        if cls == "gaussian":
            m = d.GaussianModel(k(1))
            m.fit(x.reshape(3, 1), c.np.array([1, 0, 1]))
            return list(m.predict(c.arr([[0.25]], float))[0])
    a, b = go(lambda t: t), go(lambda t: 1.0 * t)
    c.close(b, a, 1e-9, "%s with floating-point numbers" % cls)


NAMES = ["fir", "firb", "iir", "iirsame", "derivative", "integral", "pid", "rank", "goertzel", "bandpass", "polynomial", "polynomial2", "polyphase", "window", "complex1", "complex1g", "complex3", "complex3g",
         "fourier", "fourieri", "psd", "psds", "haar", "haari", "haar2", "haar2i", "daubechies", "coiflet", "z", "zi", "z0", "diversity", "gaussian", "mixture", "frequency", "exponential"]
ONLY = dict(exponential="f", bandpass="c", frequency="c", complex1="ci", complex1g="ci", z="f", zi="f", z0="f", rank="fi", polynomial="fi", polynomial2="fi", polyphase="fi", complex3="fi", complex3g="fi", diversity="fi", gaussian="i", mixture="i",
            psd="fi", psds="fi")


def instances(tier):
    out = []

    def add(fn, **k):
        out.append(dict(name=fn + " " + " ".join("%s %s" % t for t in k.items()), fn=fn, kw=k, budget=200))
    for n in NAMES:
        for k in ONLY.get(n, "fci"):
            add("same", cls=n, kind=k)
    for n in ("firb", "derivative", "integral", "pid", "exponential", "window"):
        add("zero_imag", cls=n)
    for cls in ("fir", "iir", "pid", "integral", "derivative"):
        for attr in ("b", "s") + (("a",) if cls in ("iir", "integral") else ()):
            for kind in "fci":
                add("assigned", cls=cls, attr=attr, kind=kind, n=3, then=cls != "integral")
    for kind in "fi":
        add("assigned", cls="polyphase", attr="s", kind=kind, n=15, then=False)
        add("assigned", cls="rank", attr="s", kind=kind, n=3, then=True)
        add("diversity_state", kind=kind)
    for k in ("reset", "goertzel", "exponential", "bandpass", "polyphase", "polynomial", "pid", "z", "gaussian"):
        add("scalar", cls=k)
    return out
