"""Stand-ins for builtins, math, cmath and scipy used by the code under test."""
import builtins
import cmath
import math
import types
import warnings
from fractions import Fraction

import numpy as np

from . import arr, core
from .arr import NP, SYM, SymArray, asarr, conc, from_real, hassym, hasarr, issym, mk, wrap, n_matmul
from .core import SymBool, SymComplex, SymInt, SymNum, SymReal, Unsupported, b_all, b_any, ite, lift, toreal


# -- builtins ----------------------------------------------------------------------------------------------------


def _seq(a):
    return list(a[0]) if len(a) == 1 else list(a)


def s_max(*a, **k):
    if "key" not in k:
        v = _seq(a)
        if builtins.any(issym(x) for x in v):
            r = v[0]
            for x in v[1:]:
                r = x if (not issym(x) and not issym(r) and x > r) else r if (not issym(x) and not issym(r)) else core.ite(
                    lift(x) > r if not isinstance(lift(x), float) else lift(r) < x, x, r)
            return r
        return builtins.max(v, **k) if not v or len(a) == 1 else builtins.max(*v, **k)
    return builtins.max(*a, **k)


def s_min(*a, **k):
    if "key" not in k:
        v = _seq(a)
        if builtins.any(issym(x) for x in v):
            r = v[0]
            for x in v[1:]:
                r = x if (not issym(x) and not issym(r) and x < r) else r if (not issym(x) and not issym(r)) else core.ite(
                    lift(x) < r if not isinstance(lift(x), float) else lift(r) > x, x, r)
            return r
        return builtins.min(v, **k) if not v or len(a) == 1 else builtins.min(*v, **k)
    return builtins.min(*a, **k)


def s_any(it):
    v = []
    for x in it:
        if not issym(x):
            if x:
                return True
            continue
        v.append(x)
    return b_any(v) if v else False


def s_all(it):
    v = []
    for x in it:
        if not issym(x):
            if not x:
                return False
            continue
        v.append(x)
    return b_all(v) if v else True


def s_print(*a, **k):
    return None


def s_round(x, n=None):
    return round(x, n) if n is not None else round(x)


def s_type(*a, **k):
    if len(a) == 1 and not k:
        return builtins.type(a[0])
    return builtins.type(*a, **k)


BUILTINS = dict(vars(builtins))
BUILTINS.update(isinstance=arr.sym_isinstance, issubclass=arr.sym_issubclass, int=arr.VInt, float=arr.VFloat, complex=arr.VComplex,
                bool=arr.VBool, max=s_max, min=s_min, any=s_any, all=s_all, print=s_print)

# -- math --------------------------------------------------------------------------------------------------------


def _m(real, sym):
    def f(x, *a):
        if isinstance(x, SymArray):
            x = x.item()
        if issym(x) or builtins.any(issym(v) for v in a):
            if isinstance(x, SymComplex):
                raise TypeError("must be real number, not complex")
            return sym(x, *a)
        return real(x, *a)
    return f


def _isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
    if not (issym(a) or issym(b)):
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    d = abs(a - b)
    return core.b_or(d <= rel_tol * abs(a), core.b_or(d <= rel_tol * abs(b), d <= abs_tol))


MATH_OVR = dict(
    sqrt=_m(math.sqrt, lambda a: core.r_sqrt(lift(a))), exp=_m(math.exp, core.r_exp), cos=_m(math.cos, lambda a: core.r_cos(lift(a))),
    sin=_m(math.sin, lambda a: core.r_sin(lift(a))), floor=_m(math.floor, lambda a: core.floor(lift(a))),
    ceil=_m(math.ceil, lambda a: core.ceil(lift(a))), trunc=_m(math.trunc, lambda a: core.trunc(lift(a))),
    fabs=_m(math.fabs, lambda a: toreal(abs(lift(a)))), fmod=_m(math.fmod, lambda a, b: core.r_fmod(lift(a), lift(b))),
    isnan=_m(math.isnan, lambda a: False), isinf=_m(math.isinf, lambda a: False), isfinite=_m(math.isfinite, lambda a: True),
    copysign=_m(math.copysign, lambda a, b: ite(b >= 0, abs(a), -abs(a))), pow=_m(math.pow, lambda a, b: a ** b),
    hypot=lambda *a: NP.sqrt(builtins.sum(x * x for x in a)) if builtins.any(issym(x) for x in a) else math.hypot(*a),
    atan2=_m(math.atan2, lambda a, b: core.c_angle(core.mkcomplex(core.comp(b), core.comp(a)))),
    log=_m(math.log, lambda a, *b: arr.r_log(a)), isclose=_isclose,
    fsum=lambda v: builtins.sum(v), prod=lambda v, start=1: _prod(v, start),
    modf=_m(math.modf, lambda a: (a - core.trunc(lift(a)), toreal(core.trunc(lift(a))))),
    degrees=lambda a: a * (180.0 / math.pi), radians=lambda a: a * (math.pi / 180.0),
    sumprod=lambda a, b: builtins.sum(x * y for x, y in zip(a, b)),
    log10=_m(math.log10, lambda a: arr.r_log(a) / math.log(10.0)), log2=_m(math.log2, lambda a: arr.r_log(a) / math.log(2.0)),
    log1p=_m(math.log1p, lambda a: arr.r_log(a + 1.0)), expm1=_m(math.expm1, lambda a: core.r_exp(a) - 1.0),
    exp2=_m(math.exp2, lambda a: core.r_exp(a * math.log(2.0))), tan=_m(math.tan, lambda a: core.r_sin(lift(a)) / core.r_cos(lift(a))),
    cosh=_m(math.cosh, lambda a: (core.r_exp(a) + core.r_exp(-a)) * 0.5),
    sinh=_m(math.sinh, lambda a: (core.r_exp(a) - core.r_exp(-a)) * 0.5),
    dist=lambda p, q: (NP.sqrt(builtins.sum((x - y) * (x - y) for x, y in zip(p, q)))
                       if builtins.any(issym(v) for v in [*p, *q]) else math.dist(p, q)),
)


def _prod(v, start=1):
    r = start
    for x in v:
        r = r * x
    return r


MATH = arr._Mod("math", math, MATH_OVR)
CMATH = arr._Mod("cmath", cmath, dict(
    exp=lambda a: core.c_exp(a) if issym(a) else cmath.exp(a), phase=lambda a: core.c_angle(a) if issym(a) else cmath.phase(a),
    cos=lambda a: (core.c_exp(a * 1j) + core.c_exp(a * -1j)) * 0.5 if issym(a) else cmath.cos(a),
    sin=lambda a: (core.c_exp(a * 1j) - core.c_exp(a * -1j)) * -0.5j if issym(a) else cmath.sin(a),
    isclose=lambda a, b, rel_tol=1e-9, abs_tol=0.0: (_isclose(a, b, rel_tol, abs_tol) if issym(a) or issym(b)
                                                     else cmath.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)),
    isnan=lambda a: False if issym(a) else cmath.isnan(a), isinf=lambda a: False if issym(a) else cmath.isinf(a),
    isfinite=lambda a: True if issym(a) else cmath.isfinite(a),
    polar=lambda a: (abs(a), core.c_angle(a)) if issym(a) else cmath.polar(a),
    rect=lambda r, p: r * core.c_exp(core.mkcomplex(0.0, core.comp(p))) if issym(p) or issym(r) else cmath.rect(r, p)))

# -- scipy.signal ------------------------------------------------------------------------------------------------

import scipy.signal as ss


def hilbert(x, N=None, axis=-1):
    x = asarr(x)
    if x.isconc():
        return wrap(ss.hilbert(x.concrete(), N, axis))
    if x.dt.kind == "c":
        raise ValueError("x must be real.")
    if x.ndim == 2 and N is None and axis in (-1, 1, 0):
        if axis == 0:
            return n_matmul(from_real(arr._clean(ss.hilbert(np.eye(x.shape[0]), axis=0))), x)
        return n_matmul(x, from_real(arr._clean(ss.hilbert(np.eye(x.shape[1]), axis=0)).T))
    if x.ndim != 1:
        raise Unsupported("hilbert of a matrix")
    return n_matmul(from_real(arr._clean(ss.hilbert(np.eye(len(x)), conc(N), axis=0))), x)


def freqz(b, a=1, worN=512, whole=False, plot=None, fs=2 * math.pi, include_nyquist=False):
    if isinstance(worN, SymNum):
        worN = worN.concretize()
    if not hassym([b, a, worN, fs]):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return wrap(ss.freqz(conc(b), conc(a), conc(worN), conc(whole), None, fs, include_nyquist))
    if hassym([worN, fs, whole]) or plot is not None:
        raise Unsupported("freqz at symbolic frequencies")
    w, _ = ss.freqz([1.0], 1, conc(worN), bool(whole), None, fs, include_nyquist)
    wr = w * (2 * math.pi / fs)
    b = asarr(b if isinstance(b, (list, tuple, np.ndarray)) else [b]).reshape(-1)
    a = asarr(a if isinstance(a, (list, tuple, np.ndarray)) else [a]).reshape(-1)

    def ev(c):
        E = np.exp(-1j * np.outer(wr, np.arange(len(c))))
        return n_matmul(from_real(_snapc(E)), c)
    num = ev(b)
    if a.isconc() and len(a) == 1 or a.isconc() and not np.any(a.concrete()[1:]):
        return from_real(w), num / a[0]
    return from_real(w), num / ev(a)


def _snapc(E):
    for part in (E.real, E.imag):
        for v in (0.0, 1.0, -1.0, 0.5, -0.5):
            part[abs(part - v) < 2e-15] = v
    return E


def group_delay(system, w=512, whole=False, fs=2 * math.pi):
    b, a = system
    if isinstance(w, SymNum):
        w = w.concretize()
    if not hassym([b, a, w, fs]):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return wrap(ss.group_delay((conc(b), conc(a)), conc(w), conc(whole), fs))
    if hassym([w, fs, whole]):
        raise Unsupported("group delay at symbolic frequencies")
    # as scipy: c = b * conj(a reversed), delay = Re(sum n c z / sum c z) - (len(a) - 1), singular points give 0
    b, a = asarr(b).reshape(-1), asarr(a).reshape(-1)
    w, _ = ss.freqz([1.0], 1, conc(w), bool(whole), None, fs)
    c = arr.n_convolve(b, arr.n_conj(a[::-1]))
    cr = c * from_real(np.arange(len(c)))
    z = np.exp(-1j * w * (2 * math.pi / fs))
    E = _snapc(np.power.outer(z, np.arange(len(c))))
    num, den = n_matmul(from_real(E), cr), n_matmul(from_real(E), c)
    out = []
    for k in range(len(w)):
        d = core.tocomplex(den[k])
        m = core._add(core._mul(d.re, d.re), core._mul(d.im, d.im))
        eps = 10 * 2.220446049250313e-16
        if bool(m < eps * eps):
            out.append(0.0)
        else:
            out.append(arr.real1(num[k] / den[k]) - (len(a) - 1))
    return from_real(w), mk([toreal(lift(v)) for v in out])


def lfilter(b, a, x, axis=-1, zi=None):
    if not hassym([b, a, x, zi]):
        return wrap(ss.lfilter(conc(b), conc(a), conc(x), axis, conc(zi)))
    b, a, x = asarr(b), asarr(a), asarr(x)
    if x.ndim != 1:
        raise Unsupported("lfilter of a matrix")
    n = builtins.max(len(b), len(a))
    dt = np.result_type(b.dt, a.dt, x.dt, np.dtype(float))
    B = list(b) + [0.0] * (n - len(b))
    A = list(a) + [0.0] * (n - len(a))
    B, A = [v / A[0] for v in B], [v / A[0] for v in A]
    z = list(zi) if zi is not None else [0.0] * (n - 1)
    y = []
    for v in x:
        o = B[0] * v + (z[0] if n > 1 else 0.0)
        for k in range(n - 1):
            z[k] = B[k + 1] * v + (z[k + 1] if k + 1 < n - 1 else 0.0) - A[k + 1] * o
        y.append(o)
    y = arr.from_list([arr._np(v) for v in y], dt)
    return (y, arr.from_list([arr._np(v) for v in z], dt)) if zi is not None else y


def _convolve(a, v, mode="full", method="auto", axes=None):
    a, v = asarr(a), asarr(v)
    if a.isconc() and v.isconc():
        return wrap(ss.convolve(a.concrete(), v.concrete(), mode))
    if a.ndim != 1:
        raise Unsupported("nd convolution")
    if mode == "same":
        full = arr._conv(a, v, "full")
        s = (len(full) - len(a)) // 2
        return full[s:s + len(a)]
    return arr._conv(a, v, mode)


def _correlate(a, v, mode="full", method="auto"):
    a, v = asarr(a), asarr(v)
    if a.isconc() and v.isconc():
        return wrap(ss.correlate(a.concrete(), v.concrete(), mode))
    if a.ndim != 1:
        raise Unsupported("nd correlation")
    return _convolve(a, arr.n_conj(v)[::-1], mode)


def sosfilt(sos, x, axis=-1, zi=None):
    if not hassym([sos, x, zi]):
        return wrap(ss.sosfilt(conc(sos), conc(x), axis, conc(zi)))
    sos, x = asarr(sos), asarr(x)
    if x.ndim != 1:
        raise Unsupported("sosfilt of a matrix")
    zf = []
    for k in range(sos.shape[0]):
        r = lfilter(sos[k][:3], sos[k][3:], x, zi=None if zi is None else asarr(zi)[k])
        x, z = r if zi is not None else (r, None)
        zf.append(z)
    return (x, arr.NP.stack(zf)) if zi is not None else x


def lfiltic(b, a, y, x=None):
    if not hassym([b, a, y, x]):
        return wrap(ss.lfiltic(conc(b), conc(a), conc(y), conc(x)))
    b, a, y = asarr(b), asarr(a), asarr(y)
    x = asarr(x) if x is not None else asarr([0.0])
    n = builtins.max(len(b), len(a)) - 1
    b, a = [v / a[0] for v in b], [v / a[0] for v in a]
    xs = list(x)[:len(b) - 1] + [0.0] * n
    ys = list(y)[:len(a) - 1] + [0.0] * n
    z = [builtins.sum(b[m + 1 + k] * xs[k] for k in range(len(b) - m - 1)) - builtins.sum(a[m + 1 + k] * ys[k] for k in range(len(a) - m - 1))
         for m in range(n)]
    return arr.from_list([arr._np(v) for v in z], np.result_type(float, y.dt))


SIGNAL_OVR = dict(correlate=_correlate, sosfilt=sosfilt, lfiltic=lfiltic, hilbert=hilbert, freqz=freqz, group_delay=group_delay, lfilter=lfilter, convolve=_convolve, fftconvolve=_convolve,
                  oaconvolve=_convolve)


class Scipy(types.ModuleType):
    """scipy for the code under test; sub-modules pass concrete arguments through to the library."""

    def __init__(self, stubs=None):
        super().__init__("scipy")
        import scipy
        self.__dict__["_r"] = scipy
        self.__dict__["_m"] = {}
        self.__dict__["_stubs"] = stubs or {}

    def sub(self, name):
        m = self._m.get(name)
        if m is None:
            import importlib
            real = importlib.import_module("scipy." + name)
            ovr = dict(SIGNAL_OVR) if name == "signal" else {}
            if name == "fft":
                ovr.update({k: getattr(arr.SUB["fft"], k) for k in ("fft", "ifft", "rfft", "fftshift", "ifftshift")})
            if name == "linalg":
                ovr.update({k: getattr(arr.SUB["linalg"], k) for k in ("inv", "det", "solve", "norm", "pinv")})
            for k, v in self._stubs.items():
                p, _, n = k.rpartition(".")
                if p == "scipy." + name:
                    ovr[n] = v
            m = arr._Mod("scipy." + name, real, ovr)
            self._m[name] = m
        return m

    def __getattr__(self, name):
        if name.startswith("__"):
            return getattr(self._r, name)
        try:
            return self.sub(name)
        except ImportError:
            return getattr(self._r, name)
