"""Symbolic arrays (object ndarrays that model a numpy dtype) and the numpy stand-in given to the code under test."""
import builtins
import functools
import inspect
import math
import types
import warnings
from fractions import Fraction

import numpy as np

from . import core
from .core import (SymBool, SymComplex, SymInt, SymNum, SymReal, Unsupported, b_all, b_and, b_any, b_not, b_or,
                   c_abs, c_angle, c_exp, ite, lift, mkcomplex, mkint, mkreal, toreal, tocomplex, tobool)

SYM = (SymNum, SymBool, SymComplex)
F64, I64, C128, BOOL = np.dtype("float64"), np.dtype("int64"), np.dtype("complex128"), np.dtype(bool)


def issym(x):
    return isinstance(x, SYM)


def hassym(x):
    """any symbolic scalar in x (nested)"""
    if isinstance(x, SYM):
        return True
    if isinstance(x, SymArray):
        return not x.isconc()
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(v, SYM) for v in x.flat)
    if isinstance(x, (list, tuple, set, frozenset)):
        return any(hassym(v) for v in x)
    if isinstance(x, dict):
        return any(hassym(v) for v in x.values())
    return False


def hasarr(x):
    if isinstance(x, (SymArray,) + SYM):
        return True
    if isinstance(x, (list, tuple)):
        return any(hasarr(v) for v in x)
    if isinstance(x, dict):
        return any(hasarr(v) for v in x.values())
    return False


def conc(x):
    """replace concrete SymArrays by plain arrays (nested)"""
    if isinstance(x, SymArray):
        return x.concrete()
    if isinstance(x, SymNum):
        c = x.const()
        if c is not None:
            return int(c) if x.isint else float(c)
        raise Unsupported("symbolic value reached a concrete function")
    if isinstance(x, (SymBool, SymComplex)):
        raise Unsupported("symbolic value reached a concrete function")
    if isinstance(x, list):
        return [conc(v) for v in x]
    if isinstance(x, tuple):
        if hasattr(x, "_fields"):
            return x
        return tuple(conc(v) for v in x)
    if isinstance(x, dict):
        return {k: conc(v) for k, v in x.items()}
    if isinstance(x, type) and hasattr(x, "_vreal"):
        return x._vreal
    return x


def wrap(x):
    """plain numeric ndarray -> SymArray (nested in tuples and lists)"""
    if isinstance(x, SymArray):
        return x
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return mk(x.tolist()) if x.size else x
        if x.dtype.kind in "biufc":
            return from_real(x)
        return x
    if isinstance(x, tuple):
        if hasattr(x, "_fields"):
            return tuple(wrap(v) for v in x) if builtins.any(isinstance(v, np.ndarray) for v in x) else x
        return tuple(wrap(v) for v in x)
    if isinstance(x, list):
        return [wrap(v) for v in x]
    return x


def from_real(x):
    x = np.asarray(x)
    a = np.empty(x.shape, dtype=object)
    if x.size:
        f = a.reshape(-1)
        for i, v in enumerate(x.reshape(-1)):
            f[i] = v
        a = f.reshape(x.shape)
    r = a.view(SymArray)
    r.dt = x.dtype
    return r


def from_list(vals, dt, shape=None):
    a = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        a[i] = cast_scalar(v, dt)
    if shape is not None:
        a = a.reshape(shape)
    r = a.view(SymArray)
    r.dt = np.dtype(dt)
    return r


def scalar_dt(v):
    """(dtype, weak) of a scalar"""
    if isinstance(v, SymBool) or isinstance(v, (bool, np.bool_)):
        return BOOL
    if isinstance(v, SymInt):
        return I64
    if isinstance(v, SymNum):
        return F64
    if isinstance(v, SymComplex):
        return C128
    if isinstance(v, np.generic):
        return v.dtype
    if isinstance(v, int):
        return I64 if -2**63 <= v < 2**63 else F64
    if isinstance(v, (float, Fraction)):
        return F64
    if isinstance(v, complex):
        return C128
    return None


def todtype(t):
    if t is None:
        return None
    if isinstance(t, np.dtype):
        return t
    if isinstance(t, type):
        if hasattr(t, "_vreal"):
            return np.dtype(t._vreal)
        if issubclass(t, SymBool):
            return BOOL
        if issubclass(t, SymInt):
            return I64
        if issubclass(t, SymNum):
            return F64
        if issubclass(t, SymComplex):
            return C128
        if t is Fraction:
            return F64
    return np.dtype(t)


def cast_scalar(v, dt):
    """value of v stored in an array of dtype dt"""
    k = dt.kind
    if k == "f":
        if isinstance(v, SymNum):
            r = toreal(v)
            return _lowprec(r, dt)
        if isinstance(v, SymBool):
            return toreal(v.num())
        if isinstance(v, SymComplex):
            return _lowprec(v.real, dt)
        if isinstance(v, Fraction):
            v = float(v)
        if isinstance(v, complex) and not isinstance(v, np.generic):
            raise TypeError("float() argument must be a string or a real number, not 'complex'")
        if isinstance(v, np.complexfloating):
            return dt.type(v.real)
        return dt.type(v)
    if k == "c":
        if isinstance(v, SymComplex):
            return SymComplex(core.comp(_lowprec(v.re, dt)), core.comp(_lowprec(v.im, dt)))
        if isinstance(v, SymNum):
            return SymComplex(_lowprec(toreal(v), dt), 0.0)
        if isinstance(v, SymBool):
            return SymComplex(v.num(), 0.0)
        if isinstance(v, Fraction):
            v = float(v)
        return dt.type(v)
    if k in "iu":
        if isinstance(v, SymInt):
            return v
        if isinstance(v, SymNum):
            return core.trunc(v)
        if isinstance(v, SymBool):
            return v.num()
        if isinstance(v, SymComplex):
            return core.trunc(lift(v.re))
        if isinstance(v, np.complexfloating):
            return dt.type(v.real)
        if isinstance(v, complex):
            raise TypeError("int() argument must be a string, a bytes-like object or a real number, not 'complex'")
        if isinstance(v, (float, np.floating)) and not math.isfinite(v):
            if isinstance(v, np.generic):
                return dt.type(np.iinfo(dt).min)
            raise ValueError("cannot convert float NaN to integer")
        return dt.type(int(v)) if not isinstance(v, np.generic) else v.astype(dt)
    if k == "b":
        b = tobool(v)
        return b if isinstance(b, SymBool) else np.bool_(b)
    return v


def _lowprec(v, dt):
    """rounding to single or half precision: an arbitrary error within half a unit in the last place"""
    if dt.itemsize == (16 if dt.kind == "c" else 8) or dt.itemsize > 8 and dt.kind == "f":
        return v
    if not isinstance(v, SymNum):
        return float(np.dtype("f%d" % (dt.itemsize // (2 if dt.kind == "c" else 1))).type(v))
    bits = {4: 24, 2: 11}[dt.itemsize // (2 if dt.kind == "c" else 1)]
    if not math.isfinite(v.m):
        raise Unsupported("single precision of an unbounded value")
    st = core.cur()
    key = ("lowprec", bits, core.p_key(v.p))
    d = st.cache.get(key)
    if d is None:
        b = Fraction(v.m) * Fraction(1, 2 ** bits)
        d = st.fresh("rnd", lo=-b, hi=b)
        d.ev = lambda env, p=v.p: float({24: np.float32, 11: np.float16}[bits](core.pev(p, env))) - core.pev(p, env)
        st.cache[key] = d
    return SymReal(core.p_add(v.p, {(d.id,): Fraction(1)}), v.m * (1 + 2.0 ** -bits), v.e)


_ND = np.ndarray


def plain(x):
    """object ndarray view of a SymArray"""
    return x.view(_ND) if isinstance(x, SymArray) else x


def mk(x, dtype=None):
    """numpy.array(x) for nested sequences, arrays and scalars; always a new array"""
    dt = todtype(dtype)
    if isinstance(x, SymArray):
        d = dt or x.dt
        r = _ND.copy(plain(x)).view(SymArray)
        r.dt = x.dt
        return r.astype(d) if d != x.dt else r
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            if x.dtype.kind not in "biufc":
                return np.array(x, dt)
            r = from_real(x)
            return r.astype(dt) if dt is not None and dt != r.dt else r
        x = x.tolist()
    if not hasarr(x):
        r = np.array(conc(x), dtype=dt)
        if r.dtype.kind in "biufc":
            return from_real(r)
        return r
    # nested with symbolic content
    leaves = []

    def shape_of(v):
        if isinstance(v, SymArray):
            return v.shape
        if isinstance(v, np.ndarray):
            return v.shape
        if isinstance(v, (list, tuple)):
            if not len(v):
                return (0,)
            s = [shape_of(w) for w in v]
            if any(t != s[0] for t in s):
                raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
            return (len(v),) + s[0]
        return ()

    def walk(v):
        if isinstance(v, SymArray):
            dts.append(v.dt)
            leaves.extend(plain(v).reshape(-1).tolist() if v.size else [])
        elif isinstance(v, np.ndarray):
            dts.append(v.dtype)
            leaves.extend(v.reshape(-1))
        elif isinstance(v, (list, tuple)):
            for w in v:
                walk(w)
        else:
            d = scalar_dt(v)
            if d is None:
                raise Unsupported("array of %r" % type(v))
            dts.append(d)
            leaves.append(v)

    dts = []
    shape = shape_of(x)
    walk(x)
    if dt is None:
        dt = np.result_type(*set(dts)) if dts else F64
    if dt.kind not in "biufc":
        raise Unsupported("array dtype %s" % dt)
    return from_list(leaves, dt, shape)


def asarr(x, dtype=None):
    if isinstance(x, SymArray) and (dtype is None or todtype(dtype) == x.dt):
        return x
    return mk(x, dtype)


class SymArray(np.ndarray):
    """ndarray of python objects standing for an array of dtype ``dt``."""

    __array_priority__ = 1000

    def __array_finalize__(self, obj):
        self.dt = getattr(obj, "dt", F64)

    # -- modelled attributes
    @property
    def dtype(self):
        return self.dt

    @property
    def itemsize(self):
        return self.dt.itemsize

    @property
    def nbytes(self):
        return self.dt.itemsize * self.size

    def isconc(self):
        for v in plain(self).flat:
            if isinstance(v, SYM):
                return False
        return True

    def concrete(self):
        p = plain(self)
        vals = []
        for v in p.reshape(-1) if p.size else []:
            if isinstance(v, SymNum):
                c = v.const()
                if c is None:
                    raise Unsupported("symbolic value reached a concrete function")
                v = float(c) if not v.isint else int(c)
            elif isinstance(v, SymComplex):
                cr, ci = lift(v.re).const(), lift(v.im).const()
                if cr is None or ci is None:
                    raise Unsupported("symbolic value reached a concrete function")
                v = complex(float(cr), float(ci))
            elif isinstance(v, SymBool):
                raise Unsupported("symbolic value reached a concrete function")
            vals.append(v)
        return np.array(vals, dtype=self.dt).reshape(p.shape)

    def __repr__(self):
        return "<symarray %s %s>" % (self.shape, self.dt)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __reduce__(self):
        raise Unsupported("pickling a symbolic array")

    def __deepcopy__(self, memo):
        return mk(self)

    def __copy__(self):
        return mk(self)

    # -- indexing
    def _fixidx(self, idx):
        if isinstance(idx, tuple):
            return tuple(self._fix1(i) for i in idx)
        return self._fix1(idx)

    def _fix1(self, i):
        if isinstance(i, SymArray):
            if i.isconc():
                c = i.concrete()
                return c
            if i.dt.kind == "b":
                return np.array([bool(v) for v in plain(i).reshape(-1)], dtype=bool).reshape(i.shape)
            return np.array([int(v.concretize()) if isinstance(v, SymNum) else int(v) for v in plain(i).reshape(-1)],
                            dtype=int).reshape(i.shape)
        if isinstance(i, SymBool):
            return bool(i)
        if isinstance(i, SymNum):
            if not i.isint:
                raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
            return i.concretize()
        if isinstance(i, list) and hassym(i):
            return self._fix1(mk(i))
        return i

    def _gather(self, i):
        """self[i] for one symbolic index, merged over all positions"""
        n = self.shape[0]
        c = i.const()
        if c is not None:
            return _ND.__getitem__(self, int(c))
        inr = b_and(i >= -n, i < n)
        if not bool(inr) if isinstance(inr, SymBool) else not inr:
            raise IndexError("index is out of bounds for axis 0 with size %d" % n)
        st = core.cur()
        neg = (i < 0)
        if isinstance(neg, SymBool):
            r, _ = st.solve([core.Con(neg.e, neg.vs)])
            if r == "unsat":
                neg = False
        if neg is not False:
            if bool(neg):
                i = i + n
        if self.ndim == 1:
            v = plain(self)[n - 1]
            for k in range(n - 2, -1, -1):
                v = ite(i == k, plain(self)[k], v)
            return cast_scalar(v, self.dt)
        rows = plain(self).reshape(n, -1)
        out = list(rows[n - 1])
        for k in range(n - 2, -1, -1):
            e = i == k
            out = [ite(e, a, b) for a, b in zip(rows[k], out)]
        return from_list(out, self.dt, self.shape[1:])

    def __getitem__(self, idx):
        if isinstance(idx, SymNum) and idx.isint and idx.const() is None:
            return self._gather(idx)
        if isinstance(idx, SymArray) and idx.dt.kind in "iu" and not idx.isconc():
            vals = [self._gather(lift(i)) for i in plain(idx).reshape(-1)]
            if self.ndim == 1:
                return from_list(vals, self.dt, idx.shape)
            return mk(vals, self.dt).reshape(idx.shape + self.shape[1:])
        if isinstance(idx, tuple) and len(idx) == 2 and self.ndim == 2 and any(
                isinstance(i, SymNum) and i.const() is None for i in idx):
            r, c = idx
            if isinstance(r, SymNum) and r.const() is None:
                return self._gather(r)[c]
            if not isinstance(r, slice):
                return self[r][c]
        r = _ND.__getitem__(self, self._fixidx(idx))
        return r

    def __iter__(self):
        for k in range(len(self)):
            yield self[k]

    def __contains__(self, x):
        return bool((self == x).any())

    def __setitem__(self, idx, val):
        dt = self.dt
        if isinstance(val, (SymArray, np.ndarray, list, tuple, range)):
            v = val if isinstance(val, SymArray) else mk(val if not isinstance(val, range) else list(val))
            if isinstance(v, SymArray):
                v = v if v.dt == dt else v.astype(dt)
                v = plain(v)
        else:
            v = cast_scalar(val, dt)
        if isinstance(idx, SymArray) and idx.dt.kind == "b" and not idx.isconc() and idx.shape == self.shape:
            # masked assignment of one value: merge
            p = plain(self)
            if isinstance(v, np.ndarray) and v.shape not in ((), (1,), self.shape):
                raise Unsupported("masked assignment of an array")
            if isinstance(v, np.ndarray) and v.shape == self.shape and v.shape != (1,):
                m = self._fixidx(idx)
                _ND.__setitem__(self, m, v)
                return
            if isinstance(v, np.ndarray):
                v = v.reshape(-1)[0]
            for k in np.ndindex(self.shape):
                c = plain(idx)[k]
                p[k] = cast_scalar(ite(c, v, p[k]), dt) if issym(c) else (v if c else p[k])
            return
        if isinstance(idx, SymNum) and idx.isint and idx.const() is None and self.ndim == 1:
            n = self.shape[0]
            i = idx
            inr = b_and(i >= 0, i < n)
            if inr is True or bool(inr):
                p = plain(self)
                if isinstance(v, np.ndarray):
                    v = v.reshape(-1)[0]
                for k in range(n):
                    p[k] = cast_scalar(ite(i == k, v, p[k]), dt)
                return
        i = self._fixidx(idx)
        if isinstance(v, np.ndarray) and v.shape == ():
            v = v[()]
        try:
            _ND.__setitem__(self, i, v)
        except TypeError:
            if getattr(v, "shape", ()) == (1,):
                _ND.__setitem__(self, i, v[0])
            else:
                raise

    def fill(self, v):
        self[...] = v

    def item(self, *a):
        if a:
            return plain(self).reshape(-1)[a[0]] if len(a) == 1 else plain(self)[a]
        if self.size != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return plain(self).reshape(-1)[0]

    def tolist(self):
        def f(v):
            return v.item() if isinstance(v, np.generic) else v
        if self.ndim == 0:
            return f(self.item())
        if self.ndim == 1:
            return [f(v) for v in plain(self)]
        return [self[k].tolist() for k in range(len(self))]

    # -- conversions
    def astype(self, dtype, *a, copy=True, **k):
        dt = todtype(dtype)
        if dt.kind not in "biufc":
            if self.isconc():
                return self.concrete().astype(dt)
            raise Unsupported("astype %s" % dt)
        vals = plain(self).reshape(-1) if self.size else []
        out = []
        for v in vals:
            if isinstance(v, complex) and not isinstance(v, np.generic):
                v = np.complex128(v)
            out.append(cast_scalar(v, dt))
        return from_list(out, dt, self.shape)

    def copy(self, order="C"):
        return mk(self)

    def view(self, *a, **k):
        if a and a[0] in (np.ndarray, SymArray):
            return _ND.view(self, *a, **k)
        if not a and not k:
            return _ND.view(self)
        raise Unsupported("array view")

    @property
    def real(self):
        if self.dt.kind != "c":
            return self
        return from_list([real1(v) for v in plain(self).reshape(-1)], np.dtype("f%d" % (self.dt.itemsize // 2)), self.shape)

    @real.setter
    def real(self, v):
        if self.dt.kind != "c":
            self[...] = v
        else:
            self[...] = asarr(v) + 1j * self.imag

    @property
    def imag(self):
        if self.dt.kind != "c":
            return from_real(np.zeros(self.shape, self.dt))
        return from_list([imag1(v) for v in plain(self).reshape(-1)], np.dtype("f%d" % (self.dt.itemsize // 2)), self.shape)

    @imag.setter
    def imag(self, v):
        self[...] = self.real + 1j * asarr(v)

    def conjugate(self, *a, **k):
        return NP.conjugate(self)

    def conj(self, *a, **k):
        return NP.conjugate(self)

    # -- reductions and methods delegate to the numpy stand-in
    def sum(self, axis=None, dtype=None, out=None, **k): return NP.sum(self, axis=axis, dtype=dtype, **k)
    def prod(self, axis=None, dtype=None, out=None, **k): return NP.prod(self, axis=axis, dtype=dtype, **k)
    def mean(self, axis=None, dtype=None, out=None, **k): return NP.mean(self, axis=axis, **k)
    def var(self, axis=None, **k): return NP.var(self, axis=axis, **k)
    def std(self, axis=None, **k): return NP.std(self, axis=axis, **k)
    def max(self, axis=None, out=None, **k): return NP.max(self, axis=axis, **k)
    def min(self, axis=None, out=None, **k): return NP.min(self, axis=axis, **k)
    def ptp(self, axis=None, **k): return NP.max(self, axis=axis) - NP.min(self, axis=axis)
    def any(self, axis=None, out=None, **k): return NP.any(self, axis=axis, **k)
    def all(self, axis=None, out=None, **k): return NP.all(self, axis=axis, **k)
    def cumsum(self, axis=None, **k): return NP.cumsum(self, axis=axis)
    def cumprod(self, axis=None, **k): return NP.cumprod(self, axis=axis)
    def dot(self, o, out=None): return NP.dot(self, o)
    def argsort(self, axis=-1, kind=None, **k): return NP.argsort(self, axis=axis, kind=kind)
    def argmax(self, axis=None, **k): return NP.argmax(self, axis=axis)
    def argmin(self, axis=None, **k): return NP.argmin(self, axis=axis)
    def sort(self, axis=-1, **k): self[...] = NP.sort(self, axis=axis)
    def round(self, decimals=0, out=None): return NP.round(self, decimals)
    def clip(self, a=None, b=None, **k): return NP.clip(self, a, b)
    def nonzero(self): return NP.nonzero(self)
    def take(self, i, axis=None, **k): return NP.take(self, i, axis=axis)
    def searchsorted(self, v, *a, **k): return NP.searchsorted(self, v, *a, **k)
    def trace(self, *a, **k): return NP.trace(self, *a, **k)
    def repeat(self, n, axis=None): return NP.repeat(self, n, axis=axis)
    def tobytes(self, *a, **k): return self.concrete().tobytes()

    # -- operators
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method == "__call__":
            return ufunc_call(ufunc, inputs, kw)
        if method == "reduce":
            axis = kw.get("axis", 0)
            return reduce(ufunc, inputs[0], axis, kw.get("keepdims", False))
        if method == "accumulate":
            return accumulate(ufunc, inputs[0], kw.get("axis", 0))
        if method == "outer":
            a, b = asarr(inputs[0]), asarr(inputs[1])
            return ufunc_call(ufunc, (a.reshape(a.shape + (1,) * b.ndim), b), kw)
        raise Unsupported("ufunc method %s.%s" % (ufunc.__name__, method))

    def __array_function__(self, func, types_, args, kwargs):
        f = getattr(NP, func.__name__, None)
        if f is None:
            raise Unsupported("numpy function %s" % func.__name__)
        return f(*args, **kwargs)

    def __bool__(self):
        if self.size == 0:
            return False
        if self.size > 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        return bool(self.item())

    def __float__(self): return float(self.item())
    def __int__(self): return int(self.item())
    def __complex__(self): return complex(self.item())
    def __index__(self):
        if self.ndim == 0 and self.dt.kind in "iu":
            return int(self.item())
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __matmul__(self, o): return NP.matmul(self, o)
    def __rmatmul__(self, o): return NP.matmul(o, self)
    def __imatmul__(self, o):
        self[...] = NP.matmul(self, o)
        return self
    def __neg__(self): return ufunc_call(np.negative, (self,), {})
    def __pos__(self): return self.copy()
    def __abs__(self): return ufunc_call(np.absolute, (self,), {})
    def __invert__(self): return ufunc_call(np.logical_not if self.dt.kind == "b" else np.invert, (self,), {})
    def __divmod__(self, o): return self // o, self % o
    def __round__(self, n=0): return NP.round(self, n)


def _install():
    ops = dict(add=np.add, sub=np.subtract, mul=np.multiply, truediv=np.divide, floordiv=np.floor_divide,
               mod=np.remainder, pow=np.power)
    for n, u in ops.items():
        def f(self, o, u=u):
            return ufunc_call(u, (self, o), {})
        def r(self, o, u=u):
            return ufunc_call(u, (o, self), {})
        def i(self, o, u=u):
            return ufunc_call(u, (self, o), {"out": (self,)})
        setattr(SymArray, "__%s__" % n, f)
        setattr(SymArray, "__r%s__" % n, r)
        setattr(SymArray, "__i%s__" % n, i)
    for n, u in dict(lt=np.less, le=np.less_equal, gt=np.greater, ge=np.greater_equal, eq=np.equal, ne=np.not_equal).items():
        setattr(SymArray, "__%s__" % n, lambda self, o, u=u: ufunc_call(u, (self, o), {}))
    SymArray.__hash__ = None
    for n, (ub, ui) in {"and": (np.logical_and, np.bitwise_and), "or": (np.logical_or, np.bitwise_or),
                        "xor": (np.logical_xor, np.bitwise_xor)}.items():
        def g(self, o, ub=ub, ui=ui):
            return ufunc_call(ub if self.dt.kind == "b" else ui, (self, o), {})
        def gi(self, o, ub=ub, ui=ui):
            return ufunc_call(ub if self.dt.kind == "b" else ui, (self, o), {"out": (self,)})
        setattr(SymArray, "__%s__" % n, g)
        setattr(SymArray, "__r%s__" % n, g)
        setattr(SymArray, "__i%s__" % n, gi)


_install()

# ----------------------------------------------------------------------------------------------------------------
# scalar functions behind ufuncs


def real1(v):
    if isinstance(v, SymComplex):
        return v.real
    if isinstance(v, SymNum):
        return v
    return np.real(v)


def imag1(v):
    if isinstance(v, SymComplex):
        return v.imag
    if isinstance(v, SymNum):
        return v.imag
    return np.imag(v)


def iscx(v):
    return isinstance(v, (SymComplex, complex, np.complexfloating))


def _cx(f_real, f_complex=None):
    def f(a):
        if iscx(a):
            if f_complex is None:
                raise TypeError("ufunc not supported for complex")
            return f_complex(a)
        return f_real(lift(a))
    return f


def _isfinite1(v):
    return True if issym(v) else bool(np.isfinite(v))


def _cmp(op):
    def f(a, b):
        if iscx(a) or iscx(b):
            if op == "==":
                return core.c_eq(tocomplex(a), tocomplex(b))
            if op == "!=":
                return b_not(core.c_eq(tocomplex(a), tocomplex(b)))
            raise Unsupported("ordering of complex numbers")
        la, lb = lift(a), lift(b)
        if isinstance(la, float):
            if isinstance(lb, float):
                return bool(core.CMPU[op](la, lb))
            flip = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
            return core.r_cmp(flip, lb, la)
        return core.r_cmp(op, la, lb)
    return f


def _arith(name, op):
    def f(a, b):
        return op(a, b)
    return f


import operator as _op

SC = {
    "add": lambda a, b: a + b,
    "subtract": lambda a, b: a - b,
    "multiply": lambda a, b: a * b,
    "divide": lambda a, b: a / b,
    "true_divide": lambda a, b: a / b,
    "floor_divide": lambda a, b: a // b,
    "remainder": lambda a, b: a % b,
    "mod": lambda a, b: a % b,
    "fmod": lambda a, b: core.r_fmod(lift(a), lift(b)),
    "power": lambda a, b: a ** b,
    "float_power": lambda a, b: a ** b,
    "negative": lambda a: -a,
    "positive": lambda a: a,
    "absolute": lambda a: abs(a),
    "abs": lambda a: abs(a),
    "fabs": lambda a: abs(a),
    "conjugate": lambda a: a.conjugate(),
    "square": lambda a: a * a,
    "reciprocal": lambda a: 1.0 / a,
    "sqrt": _cx(core.r_sqrt),
    "cbrt": _cx(lambda a: core.r_root(a, 3)),
    "exp": _cx(core.r_exp, c_exp),
    "exp2": _cx(lambda a: core.r_exp(a * math.log(2.0))),
    "cos": _cx(core.r_cos),
    "sin": _cx(core.r_sin),
    "floor": _cx(lambda a: toreal(core.floor(a))),
    "ceil": _cx(lambda a: toreal(core.ceil(a))),
    "trunc": _cx(lambda a: toreal(core.trunc(a))),
    "rint": _cx(core.rint),
    "sign": _cx(core.r_sign, lambda a: a / abs(a) if bool(a != 0) else np.complex128(0)),
    "maximum": lambda a, b: core.r_max(a, b),
    "minimum": lambda a, b: core.r_min(a, b),
    "fmax": lambda a, b: core.r_max(a, b),
    "fmin": lambda a, b: core.r_min(a, b),
    "hypot": lambda a, b: c_abs(mkcomplex(core.comp(a), core.comp(b))),
    "arctan2": lambda a, b: c_angle(mkcomplex(core.comp(b), core.comp(a))),
    "copysign": lambda a, b: ite(b >= 0, abs(a), -abs(a)),
    "heaviside": lambda a, b: ite(a > 0, 1.0, ite(a < 0, 0.0, b)),
    "isfinite": lambda a: True,
    "isnan": lambda a: False,
    "isinf": lambda a: False,
    "less": _cmp("<"), "less_equal": _cmp("<="), "greater": _cmp(">"), "greater_equal": _cmp(">="),
    "equal": _cmp("=="), "not_equal": _cmp("!="),
    "logical_and": lambda a, b: b_and(a, b),
    "logical_or": lambda a, b: b_or(a, b),
    "logical_xor": lambda a, b: b_or(b_and(a, b_not(b)), b_and(b_not(a), b)),
    "logical_not": lambda a: b_not(a),
    "bitwise_and": lambda a, b: (b_and(a, b) if _isb(a) and _isb(b) else a & b),
    "bitwise_or": lambda a, b: (b_or(a, b) if _isb(a) and _isb(b) else a | b),
    "invert": lambda a: b_not(a) if _isb(a) else -a - 1,
    "deg2rad": lambda a: a * (math.pi / 180.0),
    "rad2deg": lambda a: a * (180.0 / math.pi),
    "log": lambda a: r_log(a),
    "log10": lambda a: r_log(a) / math.log(10.0),
    "log2": lambda a: r_log(a) / math.log(2.0),
}


def _isb(a):
    return isinstance(a, (bool, np.bool_, SymBool))


def r_log(a):
    a = lift(a)
    if isinstance(a, float):
        return np.float64(np.log(a))
    c = a.const()
    if c is not None:
        with np.errstate(all="ignore"):
            return np.log(np.float64(c))
    st = core.cur()
    for p, v in st.exps:
        if {(v.id,): Fraction(1)} == a.p:
            return SymReal(p, math.inf, math.inf)
    return core.r_uf("log", a)


def scall(ufunc, args):
    """one ufunc on scalars"""
    name = ufunc.__name__
    if not builtins.any(isinstance(a, SYM) for a in args):
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return ufunc(*args)
    f = SC.get(name)
    if f is None:
        raise Unsupported("numpy.%s on symbolic values" % name)
    return f(*args)


_RES = {}
_DUMMY = {"b": True, "i": 1, "f": 1.0, "c": 1j}


def res_dt(ufunc, ins):
    """result dtype by numpy's own promotion rules"""
    key = [ufunc.__name__]
    for x in ins:
        if isinstance(x, SymArray):
            key.append(("a", x.dt))
        elif isinstance(x, np.ndarray):
            key.append(("a", x.dtype))
        elif isinstance(x, np.generic):
            key.append(("a", x.dtype))
        elif isinstance(x, SYM):
            key.append(("a", scalar_dt(x)))
        elif isinstance(x, bool):
            key.append(("s", "b"))
        elif isinstance(x, int):
            key.append(("s", "i"))
        elif isinstance(x, (float, Fraction)):
            key.append(("s", "f"))
        elif isinstance(x, complex):
            key.append(("s", "c"))
        else:
            raise Unsupported("ufunc operand %r" % type(x))
    key = tuple(key)
    r = _RES.get(key)
    if r is None:
        d = [np.ones(1, dtype=k[1]) if k[0] == "a" else _DUMMY[k[1]] for k in key[1:]]
        with np.errstate(all="ignore"):
            r = ufunc(*d)
        r = tuple(np.asarray(x).dtype for x in r) if isinstance(r, tuple) else np.asarray(r).dtype
        _RES[key] = r
    return r


def ufunc_call(ufunc, ins, kw):
    kw = dict(kw)
    out = kw.pop("out", None)
    where = kw.pop("where", True)
    dtype = kw.pop("dtype", None)
    casting = kw.pop("casting", "same_kind")
    kw.pop("subok", None)
    kw.pop("order", None)
    if kw:
        raise Unsupported("ufunc keyword %s" % list(kw))
    if isinstance(out, tuple):
        out = out[0]
    ins = [mk(x) if isinstance(x, (list, tuple)) else x for x in ins]
    for x in ins:
        if x is None or isinstance(x, (str, dict)) or isinstance(x, type):
            return NotImplemented
    if ufunc.nout == 2:
        if ufunc.__name__ == "divmod":
            return ufunc_call(np.floor_divide, ins, {}), ufunc_call(np.remainder, ins, {})
        if ufunc.__name__ == "modf":
            i = ufunc_call(np.trunc, ins, {})
            return ins[0] - i, i
        raise Unsupported("ufunc " + ufunc.__name__)
    if ufunc is np.matmul:
        return NP.matmul(*ins)
    dt = res_dt(ufunc, ins)
    if dtype is not None:
        dt = todtype(dtype)
    if out is not None and isinstance(out, SymArray) and not np.can_cast(dt, out.dt, casting):
        raise np._core._exceptions._UFuncOutputCastingError(ufunc, casting, dt, out.dt, 0) if False else TypeError(
            "Cannot cast ufunc %r output from dtype(%s) to dtype(%s) with casting rule 'same_kind'" % (ufunc.__name__, dt, out.dt))
    objs, allconc = [], True
    for x in ins:
        if isinstance(x, SymArray):
            objs.append(plain(x))
            allconc = allconc and x.isconc()
        elif isinstance(x, np.ndarray):
            objs.append(x)
            allconc = allconc and x.dtype != object
        else:
            objs.append(x)
            allconc = allconc and not isinstance(x, SYM)
    if allconc and where is True:
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = ufunc(*[x.concrete() if isinstance(x, SymArray) else x for x in ins])
        r = np.asarray(r)
        if dtype is not None:
            r = r.astype(dt)
        if out is None and r.shape == ():
            return r[()]
        r = from_real(r)
    else:
        bs = np.broadcast_arrays(*[_obj(o) for o in objs])
        shape = bs[0].shape
        vals = []
        # dtype conversion of operands before the operation (integers entering float operations stay exact)
        for t in zip(*[b.reshape(-1) for b in bs]):
            vals.append(cast_scalar(_np(scall(ufunc, t)), dt))
        if where is not True:
            w = asarr(where)
            ws = np.broadcast_to(plain(w), shape).reshape(-1)
            base = np.broadcast_to(plain(out), shape).reshape(-1) if out is not None else [0.0] * len(vals)
            vals = [ite(c, v, o) for c, v, o in zip(ws, vals, base)]
        if shape == () and out is None:
            return vals[0]
        r = from_list(vals, dt, shape)
    if out is not None:
        out[...] = r
        return out
    return r


def _np(v):
    """python scalars that come from arithmetic inside arrays behave like numpy scalars when stored"""
    if isinstance(v, complex) and not isinstance(v, np.generic):
        return np.complex128(v)
    return v


def _obj(x):
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x
        r = np.empty(x.shape, dtype=object)
        f = r.reshape(-1)
        for i, v in enumerate(x.reshape(-1)):
            f[i] = v
        return f.reshape(x.shape)
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def binop_scalar_array(ufunc, s, a, swap=False):
    return ufunc_call(ufunc, (a, s) if swap else (s, a), {})


def reduce(ufunc, x, axis=None, keepdims=False):
    x = asarr(x)
    name = ufunc.__name__
    if x.isconc():
        with np.errstate(all="ignore"):
            r = ufunc.reduce(x.concrete(), axis=axis, keepdims=keepdims)
        return wrap(r)
    dt = x.dt
    if name in ("add", "multiply") and dt.kind == "b":
        dt = I64
    if name.startswith("logical"):
        dt = BOOL

    def one(vals):
        if name == "logical_and":
            return b_all(vals)
        if name == "logical_or":
            return b_any(vals)
        vals = list(vals)
        if not vals:
            if name == "add":
                return dt.type(0)
            if name == "multiply":
                return dt.type(1)
            raise ValueError("zero-size array to reduction operation %s which has no identity" % name)
        r = vals[0]
        for v in vals[1:]:
            r = scall(ufunc, (r, v))
        return r
    p = plain(x)
    if isinstance(axis, tuple):
        if len(axis) == x.ndim:
            axis = None
        else:
            for a in sorted([a % x.ndim for a in axis], reverse=True):
                x = reduce(ufunc, x, a, keepdims)
            return x
    if axis is None or x.ndim == 1:
        v = one(p.reshape(-1))
        v = cast_scalar(v, dt)
        if keepdims:
            return from_list([v], dt, (1,) * x.ndim)
        return v
    m = np.moveaxis(p, axis, -1)
    sh = m.shape[:-1]
    m = m.reshape(-1, m.shape[-1])
    vals = [one(row) for row in m]
    r = from_list(vals, dt, sh)
    if keepdims:
        r = from_list(vals, dt, sh[:axis % x.ndim] + (1,) + sh[axis % x.ndim:])
    return r


def accumulate(ufunc, x, axis=0):
    x = asarr(x)
    if x.isconc():
        return wrap(ufunc.accumulate(x.concrete(), axis=axis))
    m = np.moveaxis(plain(x), axis, -1)
    sh = m.shape
    out = []
    for row in m.reshape(-1, sh[-1]):
        r = None
        for v in row:
            r = v if r is None else scall(ufunc, (r, v))
            out.append(r)
    a = from_list(out, x.dt if x.dt.kind != "b" else I64, sh)
    r = np.moveaxis(plain(a), -1, axis).view(SymArray)
    r.dt = a.dt
    return r


# ----------------------------------------------------------------------------------------------------------------
# the numpy stand-in

STRUCT = set("""roll concatenate tile reshape flip fliplr flipud stack vstack hstack dstack column_stack repeat atleast_1d
atleast_2d transpose diag tril triu insert delete append split array_split squeeze expand_dims swapaxes
moveaxis ravel broadcast_to rot90 resize block diagonal hsplit vsplit flatten meshgrid""".split())


class _Finfo:
    pass


class NumpyShim(types.ModuleType):
    """numpy for the code under test."""

    def __init__(self):
        super().__init__("numpy")
        self.__dict__["_cache"] = {}

    def __getattr__(self, name):
        if name.startswith("__"):
            return getattr(np, name)
        f = OVR.get(name)
        if f is None:
            r = getattr(np, name)
            if isinstance(r, np.ufunc):
                f = _Ufunc(r)
            elif isinstance(r, type) and issubclass(r, np.generic):
                f = scalar_type(r)
            elif callable(r) and not isinstance(r, type):
                f = _delegate(r, name)
            elif isinstance(r, types.ModuleType):
                f = SUB.get(name, r)
            else:
                f = r
        setattr(self, name, f)
        return f


class _Ufunc:
    def __init__(self, u):
        self.u = u
        self.__name__ = u.__name__
        self.nin, self.nout = u.nin, u.nout

    def __call__(self, *a, **k):
        n = self.u.nin
        ins = a[:n]
        if len(a) > n:
            k["out"] = a[n]
        if not k and not builtins.any(isinstance(x, (np.ndarray, list, tuple)) for x in ins):
            r = scall(self.u, [_weak(x) for x in ins])
            return r
        if not builtins.any(hasarr(x) for x in ins) and not hasarr(k.get("out")):
            with np.errstate(all="ignore"):
                return wrap(self.u(*ins, **{kk: conc(v) for kk, v in k.items()}))
        return ufunc_call(self.u, ins, k)

    def reduce(self, x, axis=0, keepdims=False, **k): return reduce(self.u, x, axis, keepdims)
    def accumulate(self, x, axis=0, **k): return accumulate(self.u, x, axis)
    def reduceat(self, x, idx, axis=0, **k):
        x, idx = asarr(x), [int(i) for i in idx] + [None]
        if x.ndim != 1:
            raise Unsupported("reduceat")
        return NP.concatenate([asarr(reduce(self.u, x[p:(q if q is None or q > p else p + 1)], 0, False)).reshape(-1) for p, q in zip(idx, idx[1:])])
    def outer(self, a, b, **k):
        a, b = asarr(a), asarr(b)
        return ufunc_call(self.u, (a.reshape(a.shape + (1,) * b.ndim), b), k)


def _weak(x):
    if isinstance(x, Fraction):
        return float(x)
    return x


class _VMeta(type):
    def __instancecheck__(cls, o):
        return sym_isinstance(o, cls._vreal)

    def __subclasscheck__(cls, c):
        try:
            return issubclass(getattr(c, "_vreal", c), cls._vreal)
        except TypeError:
            return False

    def __eq__(cls, o):
        return cls is o or o is cls._vreal or getattr(o, "_vreal", 0) is cls._vreal or (
            isinstance(o, np.dtype) and o == np.dtype(cls._vreal)) or (
            isinstance(o, type) and issubclass(o, SymNum) and o in _SYMT and _SYMT[o] is cls._vreal)

    def __ne__(cls, o):
        return not cls == o

    def __hash__(cls):
        return hash(cls._vreal)

    def __call__(cls, *a, **k):
        return cls._conv(*a, **k)

    def __repr__(cls):
        return repr(cls._vreal)


_SYMT = {}
_TYPES = {}


def scalar_type(real):
    """stand-in for a numpy scalar type"""
    t = _TYPES.get(real)
    if t is not None:
        return t
    try:
        dt = np.dtype(real)
        ok = dt.kind in "biufc" and dt.type is real
    except TypeError:
        ok = False
    if not ok:
        t = _VMeta("V" + real.__name__, (), {"_vreal": real, "_conv": staticmethod(lambda *a, **k: real(*conc(a), **k))})
        t = real if not ok and real in (np.str_, np.bytes_, np.object_, np.void) else real
        _TYPES[real] = t
        return t

    def conv(x=0, *a):
        if isinstance(x, SYM):
            return cast_scalar(x, dt)
        if isinstance(x, (SymArray, list, tuple)) and hasarr(x):
            return asarr(x).astype(dt)
        return real(conc(x))
    t = _VMeta("V" + real.__name__, (), {"_vreal": real, "_conv": staticmethod(conv), "dtype": dt})
    _TYPES[real] = t
    return t


def _pyint(x=0, *a):
    if isinstance(x, SymNum):
        return core.trunc(x)
    if isinstance(x, SymBool):
        return x.num()
    if isinstance(x, SymComplex):
        raise TypeError("int() argument must be a string, a bytes-like object or a real number, not 'complex'")
    if isinstance(x, SymArray):
        return _pyint(x.item())
    if hasattr(x, "__sym_int__"):
        return x.__sym_int__(*a)
    return int(x, *a)


def _pyfloat(x=0.0):
    if isinstance(x, SymNum):
        return toreal(x)
    if isinstance(x, SymBool):
        return toreal(x.num())
    if isinstance(x, SymComplex):
        raise TypeError("float() argument must be a string or a real number, not 'complex'")
    if isinstance(x, SymArray):
        return _pyfloat(x.item())
    return float(x)


def _pycomplex(x=0.0, y=0.0):
    if isinstance(x, SymArray):
        x = x.item()
    if isinstance(y, SymArray):
        y = y.item()
    if issym(x) or issym(y):
        r = core.c_op(np.add, tocomplex(x), tocomplex(core.c_op(np.multiply, tocomplex(y), SymComplex(0.0, 1.0))))
        return r if isinstance(r, SymComplex) else SymComplex(r.real, r.imag)
    return complex(x, y) if not isinstance(x, str) else complex(x)


def _pybool(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymNum):
        return x != 0
    if isinstance(x, SymComplex):
        return x != 0
    if isinstance(x, SymArray):
        return _pybool(x.item())
    return bool(x)


VInt = _VMeta("int", (), {"_vreal": int, "_conv": staticmethod(_pyint), "dtype": I64,
                          "from_bytes": int.from_bytes, "bit_length": int.bit_length})
VFloat = _VMeta("float", (), {"_vreal": float, "_conv": staticmethod(_pyfloat), "dtype": F64, "fromhex": float.fromhex})
VComplex = _VMeta("complex", (), {"_vreal": complex, "_conv": staticmethod(_pycomplex), "dtype": C128})
VBool = _VMeta("bool", (), {"_vreal": bool, "_conv": staticmethod(_pybool), "dtype": BOOL})
import numbers as _numbers

_ISA = {
    SymReal: (float, np.float64),
    SymInt: (int, np.int64),
    SymComplex: (complex, np.complex128),
    SymBool: (bool, np.bool_),
}


def sym_isinstance(o, c):
    if isinstance(c, tuple):
        return builtins.any(sym_isinstance(o, x) for x in c)
    if isinstance(c, types.UnionType):
        return builtins.any(sym_isinstance(o, x) for x in c.__args__)
    c = c.__dict__.get("_vreal", c) if isinstance(c, type) else c
    t = _ISA.get(type(o))
    if t is not None:
        if c in (SymReal, SymInt, SymComplex, SymBool, SymNum, object):
            return builtins.isinstance(o, c)
        if not isinstance(c, type):
            return False
        return builtins.any(issubclass(x, c) for x in t)
    return builtins.isinstance(o, c)


def sym_issubclass(a, b):
    if isinstance(b, tuple):
        return builtins.any(sym_issubclass(a, x) for x in b)
    b = getattr(b, "_vreal", b)
    a = getattr(a, "_vreal", a)
    if isinstance(b, types.UnionType):
        return builtins.any(sym_issubclass(a, x) for x in b.__args__)
    if a in _ISA:
        return builtins.any(builtins.issubclass(x, b) for x in _ISA[a])
    return builtins.issubclass(a, b)


def _delegate(fn, name):
    def f(*a, **k):
        if not (hassym(a) or hassym(k)):
            if name in STRUCT and hasarr(a):
                pass
            else:
                with np.errstate(all="ignore"), warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    return wrap(fn(*conc(a), **conc(k)))
        if name in STRUCT:
            return struct(fn, a, k)
        raise Unsupported("numpy.%s on symbolic values" % name)
    f.__name__ = name
    return f


def struct(fn, a, k):
    """purely structural numpy function: run it on object arrays, keep the modelled dtype"""
    dts = []

    def cv(x, top=True):
        if isinstance(x, SymArray):
            dts.append(x.dt)
            return plain(x)
        if isinstance(x, np.ndarray):
            dts.append(x.dtype)
            return _obj(x) if x.dtype.kind in "biufc" else x
        if isinstance(x, (list, tuple)):
            if any(isinstance(v, np.ndarray) for v in x):
                return type(x)(cv(v if not (isinstance(v, (list, tuple))) else mk(v)) if isinstance(v, (np.ndarray, list, tuple)) else v for v in x)
            if hassym(x) and not any(isinstance(v, (list, tuple)) for v in x):
                return cv(mk(list(x)))
            return x
        if isinstance(x, SymNum) and x.isint:
            return x.concretize()
        if isinstance(x, SYM):
            dts.append(scalar_dt(x))
            return _obj(x)
        return x
    a = [cv(x) for x in a]
    k = {kk: cv(v) for kk, v in k.items() if kk != "dtype"}
    r = fn(*a, **k)
    dt = np.result_type(*dts) if dts else F64

    def back(x):
        if isinstance(x, np.ndarray):
            y = x.view(SymArray)
            y.dt = dt
            if len(set(dts)) > 1:
                y = from_list([cast_scalar(v, dt) for v in plain(y).reshape(-1)], dt, y.shape)
            return y
        if isinstance(x, (list, tuple)):
            return type(x)(back(v) for v in x)
        return x
    return back(r)


# -- overrides ---------------------------------------------------------------------------------------------------


def n_array(x, dtype=None, copy=True, ndmin=0, **k):
    if copy is False or copy is None:
        r = asarr(x, dtype)
    else:
        r = mk(x, dtype)
    while r.ndim < ndmin:
        r = r.reshape((1,) + r.shape)
    return r


def n_asarray(x, dtype=None, **k):
    return asarr(x, dtype)


def _shape(s):
    if isinstance(s, SymNum):
        return s.concretize()
    if isinstance(s, SymArray):
        return tuple(int(v) for v in s.concrete())
    if isinstance(s, (list, tuple)):
        return tuple(_shape(v) for v in s)
    return s


def n_zeros(shape, dtype=float, **k):
    return from_real(np.zeros(_shape(shape), todtype(dtype)))


def n_ones(shape, dtype=float, **k):
    return from_real(np.ones(_shape(shape), todtype(dtype)))


def n_empty(shape, dtype=float, **k):
    # uninitialised memory: a recognisable value
    dt = todtype(dtype)
    v = {"b": True, "i": 77777, "u": 77777, "f": 77777.25, "c": 77777.25 + 1.5j}[dt.kind]
    return from_real(np.full(_shape(shape), v, dt))


def n_full(shape, v, dtype=None, **k):
    dt = todtype(dtype) or (v.dt if isinstance(v, SymArray) else scalar_dt(v))
    a = n_zeros(shape, dt)
    a[...] = v
    return a


def _like(fn):
    def f(x, *a, dtype=None, shape=None, **k):
        x = asarr(x)
        if fn is n_full and "fill_value" in k:
            a = (k["fill_value"],) + a
        if fn is n_full:
            return n_full(shape or x.shape, a[0], dtype or x.dt)
        if a:
            dtype = a[0]
        return fn(shape if shape is not None else x.shape, dtype or x.dt)
    return f


def n_arange(*a, dtype=None, start=None, stop=None, step=None, **k):
    a = list(a)
    if start is not None or stop is not None or step is not None:
        if start is not None:
            a = [start] + a
        if stop is not None:
            a = (a or [0])[:1] + [stop] + a[1:]
        if step is not None:
            a = ([0] + a if len(a) == 1 else a) + [step]
    if hassym(a):
        a = [x.concretize() if isinstance(x, SymInt) else x for x in a]
    if hassym(a):
        raise Unsupported("arange of symbolic reals")
    return from_real(np.arange(*conc(list(a)), dtype=todtype(dtype)))


def n_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if isinstance(num, SymNum):
        num = num.concretize()
    if not hassym([start, stop]):
        return wrap(np.linspace(conc(start), conc(stop), num, endpoint, retstep, todtype(dtype)))
    n = int(num)
    div = (n - 1) if endpoint else n
    if n == 0:
        return n_zeros(0)
    step = (stop - start) / div if div > 0 else np.float64(np.nan)
    vals = [start + k * step if k else toreal(lift(start)) for k in range(n)]
    if endpoint and n > 1:
        vals[-1] = stop
    r = mk([toreal(lift(v)) if not iscx(v) else v for v in vals])
    return (r, step) if retstep else r


def n_dot(a, b, out=None):
    if not (isinstance(a, np.ndarray) or isinstance(a, (list, tuple))) or not (isinstance(b, np.ndarray) or isinstance(b, (list, tuple))):
        return a * b
    a, b = asarr(a), asarr(b)
    if a.isconc() and b.isconc():
        return wrap(np.dot(a.concrete(), b.concrete()))
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    return n_matmul(a, b)


def n_matmul(a, b, out=None, **k):
    a, b = asarr(a), asarr(b)
    if a.isconc() and b.isconc():
        return wrap(np.matmul(a.concrete(), b.concrete()))
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    dt = np.result_type(a.dt, b.dt)
    A, B = plain(a), plain(b)
    if a.ndim == 1 and b.ndim == 1:
        if a.shape != b.shape:
            raise ValueError("shapes %s and %s not aligned: %d (dim 0) != %d (dim 0)" % (a.shape, b.shape, a.shape[0], b.shape[0]))
        return cast_scalar(_np(sumprod(A, B, dt)), dt)
    if a.ndim > 2 or b.ndim > 2:
        if b.ndim <= 2:
            return from_list([v for s in A for v in plain(asarr(n_matmul(_sa(s, a.dt), b))).reshape(-1)], dt, A.shape[:-1] + B.shape[1:])
        raise Unsupported("matmul of stacked matrices")
    A2 = A.reshape(1, -1) if a.ndim == 1 else A
    B2 = B.reshape(-1, 1) if b.ndim == 1 else B
    if A2.shape[1] != B2.shape[0]:
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0 (size %d is different from %d)" % (B2.shape[0], A2.shape[1]))
    vals = [sumprod(A2[i], B2[:, j], dt) for i in range(A2.shape[0]) for j in range(B2.shape[1])]
    sh = ((A2.shape[0],) if a.ndim == 2 else ()) + ((B2.shape[1],) if b.ndim == 2 else ())
    return from_list([_np(v) for v in vals], dt, sh)


def _sa(x, dt):
    r = x.view(SymArray)
    r.dt = dt
    return r


def sumprod(A, B, dt):
    """sum of products; concrete zeros contribute exactly nothing unless the other factor is not finite"""
    r = None
    for x, y in zip(A, B):
        if not issym(x) and x == 0 and issym(y):
            continue
        if not issym(y) and y == 0 and issym(x):
            continue
        t = x * y
        r = t if r is None else r + t
    if r is None:
        return dt.type(0)
    return r


def n_sum(x, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None):
    if isinstance(x, types.GeneratorType):
        r = 0
        for v in x:
            r = r + v
        return r
    if not isinstance(x, (np.ndarray, list, tuple)):
        return x
    x = asarr(x)
    if dtype is not None:
        x = x.astype(dtype)
    if where is not None:
        x = n_where(where, x, 0)
    r = reduce(np.add, x, axis, keepdims)
    if initial is not None:
        r = r + initial
    return r


def n_prod(x, axis=None, dtype=None, out=None, keepdims=False, **k):
    x = asarr(x)
    if dtype is not None:
        x = x.astype(dtype)
    return reduce(np.multiply, x, axis, keepdims)


def _count(x, axis):
    if axis is None:
        return x.size
    if isinstance(axis, tuple):
        n = 1
        for a in axis:
            n *= x.shape[a]
        return n
    return x.shape[axis]


def n_mean(x, axis=None, dtype=None, out=None, keepdims=False, **k):
    x = asarr(x)
    if x.isconc():
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return wrap(np.mean(x.concrete(), axis=axis, keepdims=keepdims))
    return reduce(np.add, x, axis, keepdims) / _count(x, axis)


def n_average(x, axis=None, weights=None, **k):
    x = asarr(x)
    if weights is None:
        return n_mean(x, axis)
    w = asarr(weights)
    if w.shape != x.shape and axis is not None:
        w = w.reshape(tuple(x.shape[i] if i == axis % x.ndim else 1 for i in range(x.ndim))) + n_zeros(x.shape)
    return n_sum(x * w, axis) / n_sum(w, axis)


def n_var(x, axis=None, ddof=0, keepdims=False, **k):
    x = asarr(x)
    u = n_mean(x, axis, keepdims=True) if axis is not None else n_mean(x)
    d = abs(x - u)
    return n_sum(d * d, axis, keepdims=keepdims) / (_count(x, axis) - ddof)


def n_std(x, axis=None, ddof=0, **k):
    return NP.sqrt(n_var(x, axis, ddof))


def n_cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    m = asarr(m)
    if not rowvar and m.ndim != 1:
        m = m.T
    if m.ndim == 1:
        m = m.reshape(1, -1)
    n = m.shape[1]
    if ddof is None:
        ddof = 0 if bias else 1
    d = m - n_mean(m, 1, keepdims=True)
    r = n_matmul(d, n_conj(d.T)) / (n - ddof)
    return r.squeeze() if r.shape == (1, 1) else r


def n_conj(x, *a, **k):
    if isinstance(x, (np.ndarray, list, tuple)):
        x = asarr(x)
        if x.dt.kind != "c":
            return x.copy()
        return from_list([v.conjugate() for v in plain(x).reshape(-1)], x.dt, x.shape)
    return x.conjugate()


def n_any(x, axis=None, out=None, keepdims=False, **k):
    if not isinstance(x, (np.ndarray, list, tuple)):
        return tobool(x)
    x = asarr(x)
    if x.isconc():
        return wrap(np.any(x.concrete(), axis=axis, keepdims=keepdims))
    return reduce(np.logical_or, x, axis, keepdims)


def n_all(x, axis=None, out=None, keepdims=False, **k):
    if not isinstance(x, (np.ndarray, list, tuple)):
        return tobool(x)
    x = asarr(x)
    if x.isconc():
        return wrap(np.all(x.concrete(), axis=axis, keepdims=keepdims))
    return reduce(np.logical_and, x, axis, keepdims)


def n_max(x, axis=None, out=None, keepdims=False, **k):
    x = asarr(x)
    return reduce(np.maximum, x, axis, keepdims)


def n_min(x, axis=None, out=None, keepdims=False, **k):
    x = asarr(x)
    return reduce(np.minimum, x, axis, keepdims)


def n_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    sc = not isinstance(a, (np.ndarray, list, tuple)) and not isinstance(b, (np.ndarray, list, tuple))
    if not hassym([a, b]):
        r = np.isclose(conc(a), conc(b), rtol, atol, equal_nan)
        return r if sc else wrap(r)

    def one(x, y):
        if not issym(y) and not np.isfinite(y):
            return False if issym(x) else bool(np.isclose(x, y, rtol, atol, equal_nan))
        if not issym(x) and not np.isfinite(x):
            return False
        if not issym(x) and not issym(y):
            return bool(np.isclose(x, y, rtol, atol, equal_nan))
        if iscx(x) or iscx(y):
            d = tocomplex(x - y)
            r = _add2(d)
            if not issym(y):
                t = atol + rtol * abs(complex(y))
                return r <= t * t
            yy = tocomplex(y)
            return abs(x - y) <= atol + rtol * abs(y)
        d = x - y
        t = atol + rtol * abs(y)
        return b_and(d <= t, -t <= d)
    if sc:
        return one(a, b)
    a, b = asarr(a), asarr(b)
    A, B = np.broadcast_arrays(plain(a), plain(b))
    return from_list([one(x, y) for x, y in zip(A.reshape(-1), B.reshape(-1))], BOOL, A.shape)


def _add2(d):
    return core._add(core._mul(d.re, d.re), core._mul(d.im, d.im))


def n_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return n_all(n_isclose(a, b, rtol, atol, equal_nan))


def n_array_equal(a, b, **k):
    a, b = asarr(a), asarr(b)
    if a.shape != b.shape:
        return False
    return n_all(a == b)


def n_iscomplex(x):
    if not isinstance(x, (np.ndarray, list, tuple)):
        return imag1(x) != 0
    x = asarr(x)
    if x.dt.kind != "c":
        return from_real(np.zeros(x.shape, bool))
    return from_list([imag1(v) != 0 for v in plain(x).reshape(-1)], BOOL, x.shape)


def n_isreal(x):
    if not isinstance(x, (np.ndarray, list, tuple)):
        return imag1(x) == 0
    return NP.logical_not(n_iscomplex(x))


def n_iscomplexobj(x):
    if isinstance(x, np.ndarray):
        return x.dtype.kind == "c"
    if isinstance(x, (list, tuple)):
        return asarr(x).dt.kind == "c"
    return iscx(x)


def n_isrealobj(x):
    return not n_iscomplexobj(x)


def n_real(x):
    if isinstance(x, (list, tuple)):
        x = asarr(x)
    return x.real if isinstance(x, np.ndarray) else real1(x)


def n_imag(x):
    if isinstance(x, (list, tuple)):
        x = asarr(x)
    return x.imag if isinstance(x, np.ndarray) else imag1(x)


def n_angle(x, deg=False):
    k = 180.0 / math.pi if deg else 1.0
    if isinstance(x, (np.ndarray, list, tuple)):
        x = asarr(x)
        r = from_list([c_angle(v) for v in plain(x).reshape(-1)], F64, x.shape)
        return r * k if deg else r
    r = c_angle(x)
    return r * k if deg else r


def n_where(c, *xy):
    if not xy:
        return n_nonzero(c)
    x, y = xy
    if not isinstance(c, (np.ndarray, list, tuple)) and not isinstance(x, (np.ndarray, list, tuple)) and not isinstance(y, (np.ndarray, list, tuple)):
        r = ite(c, x, y)
        return r
    c = asarr(c)
    dt = res_dt(np.add, [x if not isinstance(x, (list, tuple)) else asarr(x), y if not isinstance(y, (list, tuple)) else asarr(y)])
    if not isinstance(x, np.ndarray) and not isinstance(y, np.ndarray) and _isb(x) and _isb(y):
        dt = BOOL
    x, y = asarr(x), asarr(y)
    C, X, Y = np.broadcast_arrays(plain(c), plain(x), plain(y))
    return from_list([ite(k, cast_scalar(_np(a), dt), cast_scalar(_np(b), dt)) for k, a, b in zip(C.reshape(-1), X.reshape(-1), Y.reshape(-1))], dt, C.shape)


def n_select(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = n_where(c, v, r)
    return r


def n_nonzero(x):
    x = asarr(x)
    m = np.array([bool(tobool(v)) for v in plain(x).reshape(-1)], dtype=bool).reshape(x.shape)
    return tuple(from_real(i) for i in np.nonzero(m))


def n_flatnonzero(x):
    return n_nonzero(asarr(x).reshape(-1))[0]


def n_count_nonzero(x, axis=None, **k):
    return n_sum(NP.not_equal(asarr(x), 0).astype(int), axis)


def n_clip(x, a_min=None, a_max=None, out=None, **k):
    lo, hi = k.pop("min", a_min), k.pop("max", a_max)
    r = x
    if lo is not None:
        r = NP.maximum(r, lo)
    if hi is not None:
        r = NP.minimum(r, hi)
    if out is not None:
        out[...] = r
        return out
    return r


def n_round(x, decimals=0, out=None):
    if decimals:
        k = 10.0 ** decimals
        return NP.rint(x * k) / k
    if isinstance(x, SymInt):
        return x
    if isinstance(x, np.ndarray) and x.dtype.kind in "iu":
        return x.copy()
    return NP.rint(x)


def n_polyval(p, x):
    if isinstance(p, np.ndarray):
        p = list(asarr(p))
    if isinstance(x, (list, tuple)):
        x = asarr(x)
    if not hassym(p) and not hasarr(x):
        return np.polyval(conc(p), x)
    # horner, as numpy does
    r = x * 0 if isinstance(x, np.ndarray) else 0.0
    first = True
    for c in p:
        r = r * x + c if not first else r + c
        first = False
    return r


def n_polyfit(x, y, deg, **k):
    if not hassym([x, y]):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return wrap(np.polyfit(conc(asarr(x)), conc(asarr(y)), deg, **k))
    if hassym(x) or k:
        raise Unsupported("polyfit at symbolic points")
    if isinstance(deg, SymNum):
        deg = deg.concretize()
    x, y = asarr(x).concrete(), asarr(y)
    if y.shape[0] != x.shape[0]:
        raise TypeError("expected x and y to have same length")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        M = np.polyfit(x, np.eye(len(x)), deg)
    return n_matmul(from_real(_clean(M)), y)


def _clean(M):
    """remove rounding noise of matrices obtained from the library (entries below 1e-14 of the largest)"""
    M = np.array(M)
    t = 1e-15 * max(1.0, float(np.max(np.abs(M)))) * 4
    if M.dtype.kind == "c":
        M.real[abs(M.real) < t] = 0.0
        M.imag[abs(M.imag) < t] = 0.0
    else:
        M[abs(M) < t] = 0.0
    return M


def n_interp(x, xp, fp, left=None, right=None, period=None):
    if not hassym([x, xp, fp]):
        return wrap(np.interp(conc(x), conc(xp), conc(fp), left, right, period))
    if hassym(xp) or period is not None or left is not None or right is not None:
        raise Unsupported("interp at symbolic points")
    if hassym(x):
        xp, fp = asarr(xp).concrete(), asarr(fp)

        def one(t):
            r = fp[len(xp) - 1]
            for j in range(len(xp) - 2, -1, -1):
                seg = fp[j] + (fp[j + 1] - fp[j]) * ((t - float(xp[j])) / (float(xp[j + 1]) - float(xp[j])))
                r = core.ite(t < float(xp[j + 1]), seg, r)
            return core.ite(t <= float(xp[0]), fp[0], r)
        if isinstance(x, SymNum):
            return one(x)
        xs = asarr(x)
        return mk([one(t) for t in plain(xs).reshape(-1)]).reshape(xs.shape)
    x, xp, fp = asarr(x).concrete(), asarr(xp).concrete(), asarr(fp)
    E = np.eye(len(xp))
    M = np.array([np.interp(x, xp, E[k]) for k in range(len(xp))]).T.reshape(x.shape + (len(xp),))
    return n_matmul(from_real(M), fp)


def n_convolve(a, v, mode="full"):
    a, v = asarr(a), asarr(v)
    if a.isconc() and v.isconc():
        return wrap(np.convolve(a.concrete(), v.concrete(), mode))
    return _conv(a, v, mode)


def _conv(a, v, mode):
    if len(v) > len(a):
        a, v = v, a
    n, m = len(a), len(v)
    if not m:
        raise ValueError("v cannot be empty")
    dt = np.result_type(a.dt, v.dt)
    A, V = plain(a), plain(v)
    out = []
    for k in range(n + m - 1):
        lo, hi = builtins.max(0, k - m + 1), builtins.min(n - 1, k)
        out.append(_np(sumprod([A[i] for i in range(lo, hi + 1)], [V[k - i] for i in range(lo, hi + 1)], dt)))
    if mode == "same":
        s = (m - 1) // 2
        out = out[s:s + n]
    elif mode == "valid":
        out = out[m - 1:n]
    return from_list(out, dt)


def n_correlate(a, v, mode="valid"):
    v = n_conj(asarr(v))[::-1]
    return n_convolve(a, v, mode)


def n_cumsum(x, axis=None, dtype=None, out=None):
    x = asarr(x)
    return accumulate(np.add, x.reshape(-1) if axis is None else x, 0 if axis is None else axis)


def n_cumprod(x, axis=None, dtype=None, out=None):
    x = asarr(x)
    return accumulate(np.multiply, x.reshape(-1) if axis is None else x, 0 if axis is None else axis)


def n_diff(x, n=1, axis=-1, prepend=None, append=None):
    x = asarr(x)
    if prepend is not None or append is not None:
        if x.ndim != 1:
            raise Unsupported("diff")
        x = NP.concatenate([asarr(v).reshape(-1) for v in (prepend,) if v is not None] + [x] + [asarr(v).reshape(-1) for v in (append,) if v is not None])
    for _ in range(n):
        if x.ndim == 1:
            x = x[1:] - x[:-1]
        else:
            sl1 = [slice(None)] * x.ndim
            sl2 = list(sl1)
            sl1[axis], sl2[axis] = slice(1, None), slice(None, -1)
            x = x[tuple(sl1)] - x[tuple(sl2)]
    return x


def n_outer(a, b, **k):
    a, b = asarr(a).reshape(-1), asarr(b).reshape(-1)
    return a.reshape(-1, 1) * b.reshape(1, -1)


def n_vdot(a, b):
    return n_dot(n_conj(asarr(a).reshape(-1)), asarr(b).reshape(-1))


def n_inner(a, b):
    a, b = asarr(a), asarr(b)
    return n_matmul(a, b.T if b.ndim > 1 else b)


def n_einsum(spec, *ops, **k):
    ops = [asarr(o) for o in ops]
    if not hassym(list(ops)):
        return wrap(np.einsum(spec, *[o.concrete() for o in ops]))
    ins, out = spec.replace(" ", "").split("->") if "->" in spec else (spec.replace(" ", ""), None)
    ins = ins.split(",")
    if out is None:
        allc = "".join(ins)
        out = "".join(sorted(c for c in set(allc) if allc.count(c) == 1))
    dims = {}
    for s, o in zip(ins, ops):
        for c, d in zip(s, o.shape):
            dims[c] = d
    inner = [c for c in dims if c not in out]
    dt = np.result_type(*[o.dt for o in ops])
    vals = []
    for oi in np.ndindex(*[dims[c] for c in out]):
        env = dict(zip(out, oi))
        t = None
        for ii in np.ndindex(*[dims[c] for c in inner]):
            env.update(zip(inner, ii))
            p = None
            for s, o in zip(ins, ops):
                v = plain(o)[tuple(env[c] for c in s)]
                p = v if p is None else p * v
            t = p if t is None else t + p
        vals.append(_np(t if t is not None else dt.type(0)))
    if out == "":
        return cast_scalar(vals[0], dt)
    return from_list(vals, dt, tuple(dims[c] for c in out))


def n_trace(x, *a, **k):
    x = asarr(x)
    return n_sum(mk([x[i, i] for i in range(builtins.min(x.shape))]))


def n_take(x, i, axis=None, **k):
    x = asarr(x)
    if axis is None:
        return x.reshape(-1)[i]
    sl = [slice(None)] * x.ndim
    sl[axis] = asarr(i) if isinstance(i, (list, tuple)) else i
    return x[tuple(sl)]


def n_take_along_axis(x, i, axis=-1):
    x, i = asarr(x), asarr(i)
    if x.ndim == 1:
        return x[i]
    if x.ndim == 2 and axis in (-1, 1):
        return mk([x[r][i[r]] for r in range(len(x))])
    raise Unsupported("take_along_axis")


def _perm(keys, stable):
    """indices of a sorting permutation of symbolic keys as fresh integers"""
    import z3
    st = core.cur()
    n = len(keys)
    if builtins.any(iscx(k) for k in keys):
        raise Unsupported("argsort of complex values")
    ks = [lift(k) for k in keys]
    if builtins.any(isinstance(k, float) for k in ks):
        raise Unsupported("argsort with non-finite values")
    if n == 1:
        return [mkint(0)]
    free = builtins.sum(k.const() is None for k in ks)
    if getattr(st, "sort_branch", False) or (n >= 5 and free <= 2):
        # by case distinction (a stable sort: insertion sort as in numpy for short arrays)
        o = []
        for i in range(n):
            j = len(o)
            while j > 0 and bool(ks[i] < ks[o[j - 1]]):
                j -= 1
            o.insert(j, i)
        return [mkint(i) for i in o]
    ck = ("perm", stable) + tuple(core.p_key(k.p) for k in ks)
    r = st.cache.get(ck)
    if r is not None:
        return r
    zs = [core.p_z3(k.p) for k in ks]
    vs = frozenset()
    for k in ks:
        vs = vs | core.p_vars(k.p)
    ps = [st.fresh("perm", isint=True, lo=0, hi=n - 1) for _ in range(n)]
    ws = [st.fresh("srt") for _ in range(n)]
    for j in range(n):
        ps[j].ev = lambda env, j=j: float(np.argsort([core.pev(k.p, env) for k in ks], kind="stable")[j])
        ws[j].ev = lambda env, j=j: float(sorted(core.pev(k.p, env) for k in ks)[j])
    allv = vs | frozenset(p.id for p in ps) | frozenset(w.id for w in ws)
    es = [z3.Distinct([p.z for p in ps])]
    for p, w in zip(ps, ws):
        es.append(z3.Or([z3.And(p.z == j, w.z == zs[j]) for j in range(n)]))
    for i in range(n - 1):
        if stable:
            es.append(z3.Or(ws[i].z < ws[i + 1].z, z3.And(ws[i].z == ws[i + 1].z, ps[i].z < ps[i + 1].z)))
        else:
            es.append(ws[i].z <= ws[i + 1].z)
    con = core.Con(z3.And(es), allv)
    for p in ps:
        p.defs.append(con)
    for w in ws:
        w.defs.append(con)
    r = [core.var_num(p) for p in ps]
    st.cache[ck] = r
    return r


def n_argsort(x, axis=-1, kind=None, order=None, stable=None):
    x = asarr(x)
    if x.isconc():
        return wrap(np.argsort(x.concrete(), axis=axis, kind=kind))
    st = kind in ("stable", "mergesort") or bool(stable)
    if x.ndim == 1:
        return from_list(_perm(list(plain(x)), st), I64)
    if x.ndim == 2 and axis in (1, -1):
        return from_list([v for row in plain(x) for v in _perm(list(row), st)], I64, x.shape)
    if x.ndim == 2 and axis == 0:
        return n_argsort(x.T, 1, kind).T
    raise Unsupported("argsort axis")


def n_sort(x, axis=-1, **k):
    x = asarr(x)
    if x.isconc():
        return wrap(np.sort(x.concrete(), axis=axis))
    if x.ndim == 1:
        v = list(plain(x))
        n = len(v)
        for i in range(n):
            for j in range(n - 1 - i):
                a, b = v[j], v[j + 1]
                v[j], v[j + 1] = core.r_min(a, b), core.r_max(a, b)
        return from_list(v, x.dt)
    if x.ndim == 2 and axis in (1, -1):
        return mk([n_sort(r) for r in x])
    raise Unsupported("sort axis")


def n_partition(x, kth, axis=-1, **k):
    return n_sort(x, axis)


def n_argpartition(x, kth, axis=-1, **k):
    return n_argsort(x, axis)


def n_median(x, axis=None, **k):
    x = asarr(x)
    if x.isconc():
        return wrap(np.median(x.concrete(), axis=axis))
    if axis is not None and x.ndim == 2:
        rows = x if axis in (1, -1) else x.T
        return from_list([n_median(r) for r in rows], np.result_type(x.dt, float))
    s = n_sort(x.reshape(-1))
    n = len(s)
    return s[n // 2] if n & 1 else (s[n // 2 - 1] + s[n // 2]) / 2.0


def _argext(x, axis, less):
    x = asarr(x)
    if x.isconc():
        return wrap((np.argmin if less else np.argmax)(x.concrete(), axis=axis))
    if axis is None or x.ndim == 1:
        v = list(plain(x).reshape(-1))
        bi, bv = mkint(0), v[0]
        for i in range(1, len(v)):
            c = v[i] < bv if less else v[i] > bv
            bi, bv = ite(c, mkint(i), bi), ite(c, v[i], bv)
        return bi
    m = np.moveaxis(plain(x), axis, -1)
    return from_list([_argext(_sa(r, x.dt), None, less) for r in m.reshape(-1, m.shape[-1])], I64, m.shape[:-1])


def n_argmax(x, axis=None, **k): return _argext(x, axis, False)
def n_argmin(x, axis=None, **k): return _argext(x, axis, True)


def n_unique(x, return_index=False, return_inverse=False, return_counts=False, **k):
    x = asarr(x)
    if not x.isconc():
        if x.dt.kind not in "iu":
            raise Unsupported("unique of symbolic reals")
        x = from_real(x._fix1(x))
    return wrap(np.unique(x.concrete(), return_index, return_inverse, return_counts))


def n_isscalar(x):
    return isinstance(x, SYM) or np.isscalar(x)


def n_ndim(x):
    return x.ndim if isinstance(x, np.ndarray) else (0 if issym(x) else asarr(x).ndim)


def n_shape(x):
    return x.shape if isinstance(x, np.ndarray) else (() if issym(x) else asarr(x).shape)


def n_size(x, axis=None):
    x = asarr(x)
    return x.size if axis is None else x.shape[axis]


def n_result_type(*a):
    return np.result_type(*[x.dt if isinstance(x, SymArray) else scalar_dt(x) if issym(x) else todtype(x) if isinstance(x, type) else x for x in a])


def n_promote_types(a, b):
    return np.promote_types(todtype(a), todtype(b))


def n_can_cast(a, b, casting="safe"):
    a = a.dt if isinstance(a, SymArray) else scalar_dt(a) if issym(a) else todtype(a)
    return np.can_cast(a, todtype(b), casting)


def n_common_type(*a):
    return np.common_type(*[np.zeros(1, x.dtype) for x in map(asarr, a)])


def n_issubdtype(a, b):
    def f(t):
        if isinstance(t, type) and (hasattr(t, "_vreal") or issubclass(t, SYM)):
            return todtype(t) if not hasattr(t, "_vreal") else t._vreal
        return t
    return np.issubdtype(f(a), f(b))


def n_dtype(t, *a, **k):
    return todtype(t)


def n_finfo(t=float):
    if isinstance(t, SYM):
        t = scalar_dt(t)
    return np.finfo(todtype(t) if not isinstance(t, np.dtype) else t)


def n_iinfo(t=int):
    return np.iinfo(todtype(t))


def n_roots(p):
    p = asarr(p)
    if p.isconc():
        return wrap(np.roots(p.concrete()))
    return sym_roots(list(plain(p)))


def _nonzero(v):
    v = core.tocomplex(v) if iscx(v) else v
    if isinstance(v, core.SymComplex):
        return bool(core.b_or(lift(v.re) != 0, lift(v.im) != 0))
    return bool(lift(v) != 0)


def sym_roots(v):
    """Roots with numpy semantics: leading zeros are dropped, trailing zeros give zero roots.
    Degree 1 and real degree 2 are explicit, otherwise the roots are unknowns with the polynomial's elementary symmetric functions."""
    k = 0
    while k < len(v) and not _nonzero(v[k]):
        k += 1
    v = v[k:]
    if not v:
        return mk([])
    z = 0
    while not _nonzero(v[-1]):
        v = v[:-1]
        z += 1
    n = len(v) - 1
    cx = builtins.any(iscx(t) for t in v)
    zeros = [0.0] * z
    if n == 0:
        return mk(zeros)
    q = [-(t / v[0]) if i % 2 else t / v[0] for i, t in enumerate(v)][1:]     # e_1 .. e_n
    if n == 1:
        return mk([q[0]] + zeros, complex if cx else float)
    st = core.cur()
    if n == 2 and not cx:
        h = q[0] / 2
        d = lift(h * h - q[1])
        if bool(d >= 0):
            s = core.r_sqrt(d, True)
            return mk([h + s, h - s] + zeros)
        s = core.r_sqrt(-d, True)
        return mk([core.mkcomplex(h, s), core.mkcomplex(h, -s)] + zeros, complex)
    key = ("roots",) + tuple(core.p_key(lift(w).p) for t in q for w in ((core.tocomplex(t).re, core.tocomplex(t).im) if cx else (t,)))
    r = st.cache.get(key)
    if r is None:
        qs = [core.tocomplex(t) for t in q]
        qp = [(lift(t.re).p, lift(t.im).p) for t in qs]

        def num(env):
            return np.roots([1.0] + [(-1) ** (i + 1) * complex(core.pev(a, env), core.pev(b, env)) for i, (a, b) in enumerate(qp)])
        vs, r = [], []
        for j in range(n):
            x, y = st.fresh("root.re"), st.fresh("root.im")
            x.ev = lambda env, j=j: float(num(env)[j].real)
            y.ev = lambda env, j=j: float(num(env)[j].imag)
            vs += [x, y]
            r.append(core.mkcomplex(core.var_num(x), core.var_num(y)))
        e = [core.mkcomplex(core.mkreal(1), core.mkreal(0))] + [core.mkcomplex(core.mkreal(0), core.mkreal(0))] * n
        for t in r:
            for i in range(n, 0, -1):
                e[i] = e[i] + e[i - 1] * t
        for i in range(n):
            a = core.tocomplex(e[i + 1])
            for g, w in ((a.re, qp[i][0]), (a.im, qp[i][1])):
                g = lift(g)
                ids = core.p_vars(g.p) | core.p_vars(w)
                con = core.Con(core.p_z3(core.p_add(g.p, w, -1)) == 0, ids)
                for x in vs:
                    x.defs.append(con)
        st.cache[key] = r
    return mk(list(r) + zeros, complex)


def n_poly(x):
    x = asarr(x)
    if x.isconc():
        return wrap(np.poly(x.concrete()))
    if x.ndim != 1:
        raise Unsupported("poly of a symbolic matrix")
    r = mk([1.0])
    for v in x:
        r = n_convolve(r, mk([1.0, -v]))
    return r


def n_polymul(a, b):
    return n_convolve(a, b)


def n_polyadd(a, b):
    a, b = asarr(a), asarr(b)
    n = builtins.max(len(a), len(b))
    a = NP.concatenate((n_zeros(n - len(a)), a))
    b = NP.concatenate((n_zeros(n - len(b)), b))
    return a + b


def n_apply_along_axis(f, axis, x, *a, **k):
    x = asarr(x)
    m = np.moveaxis(plain(x), axis, -1)
    rows = [f(_sa(r, x.dt), *a, **k) for r in m.reshape(-1, m.shape[-1])]
    r = mk(rows)
    r = r.reshape(m.shape[:-1] + r.shape[1:])
    if isinstance(rows[0], np.ndarray):
        p = np.moveaxis(plain(r), -1, axis)
        return _sa(p, r.dt)
    return r


def n_vectorize(f, *a, **k):
    def g(x, *y):
        x = asarr(x)
        ys = [asarr(v) if isinstance(v, (list, np.ndarray)) else v for v in y]
        bs = np.broadcast_arrays(plain(x), *[_obj(plain(v) if isinstance(v, SymArray) else v) for v in ys])
        return mk([f(*t) for t in zip(*[b.reshape(-1) for b in bs])]).reshape(bs[0].shape)
    return g


def n_copy(x, *a, **k): return mk(x)


def n_copyto(dst, src, casting="same_kind", where=True):
    if where is True:
        dst[...] = src
    else:
        dst[...] = n_where(where, src, dst)


def n_put(a, i, v, **k):
    a[asarr(i)] = v


def n_array2string(*a, **k): return "<array>"


def n_shares_memory(a, b, *r):
    return np.shares_memory(plain(a), plain(b))


def n_may_share_memory(a, b, *r):
    return np.shares_memory(plain(a), plain(b))


def n_fromiter(it, dtype, count=-1, **k):
    return mk(list(it), dtype)


def n_fromfunction(f, shape, dtype=float, **k):
    return f(*[from_real(g) for g in np.indices(shape).astype(todtype(dtype))], **k)


def n_identity(n, dtype=float, **k): return from_real(np.identity(_shape(n), todtype(dtype)))


def n_eye(n, m=None, k=0, dtype=float, **kw): return from_real(np.eye(_shape(n), _shape(m), k, todtype(dtype)))


def n_searchsorted(a, v, side="left", sorter=None):
    a = asarr(a)
    if not hassym([a, v]):
        return wrap(np.searchsorted(a.concrete(), conc(v), side))
    if isinstance(v, (np.ndarray, list)):
        return mk([n_searchsorted(a, x, side) for x in asarr(v)], int)
    r = mkint(0)
    for x in plain(a):
        c = x < v if side == "left" else x <= v
        r = r + ite(c, mkint(1), mkint(0))
    return r


def n_pad(x, w, mode="constant", **k):
    x = asarr(x)
    if mode == "constant":
        cv = k.get("constant_values", 0)
        if isinstance(cv, (list, tuple)) or hassym(cv):
            if x.ndim == 1 and not isinstance(w, int):
                w = w[0] if isinstance(w[0], (tuple, list)) else w
                lo, hi = (cv, cv) if issym(cv) else (cv if len(cv) == 2 else (cv[0], cv[0]))
                return NP.concatenate((n_full(w[0], lo, x.dt), x, n_full(w[1], hi, x.dt)))
            raise Unsupported("pad with symbolic values")
    idx = np.arange(x.size).reshape(x.shape)
    if mode == "constant":
        i = np.pad(idx, w, mode, constant_values=-1)
    else:
        i = np.pad(idx, w, mode, **k)
    f = plain(x).reshape(-1)
    c = x.dt.type(k.get("constant_values", 0))
    return from_list([f[j] if j >= 0 else c for j in i.reshape(-1)], x.dt, i.shape)


def n_ndenumerate(x):
    for i in np.ndindex(x.shape):
        yield i, plain(x)[i]


def n_gradient(x, *a, **k):
    x = asarr(x)
    if a or k or x.ndim != 1:
        raise Unsupported("gradient")
    n = len(x)
    return mk([x[1] - x[0]] + [(x[i + 1] - x[i - 1]) / 2.0 for i in range(1, n - 1)] + [x[n - 1] - x[n - 2]])


def n_trapezoid(y, x=None, dx=1.0, axis=-1):
    y = asarr(y)
    if x is not None:
        x = asarr(x)
        return n_sum((x[1:] - x[:-1]) * (y[1:] + y[:-1]) / 2.0)
    return n_sum((y[1:] + y[:-1]) * (dx / 2.0))


def n_sinc(x):
    if not hassym(x):
        return wrap(np.sinc(conc(x)))
    raise Unsupported("sinc")


def n_set_printoptions(*a, **k):
    return None


def n_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    if not hassym(x):
        return wrap(np.nan_to_num(conc(x), copy, nan, posinf, neginf))
    x = asarr(x)
    return from_list([v if issym(v) else np.nan_to_num(v, copy, nan, posinf, neginf) for v in plain(x).reshape(-1)], x.dt, x.shape)


def n_sliding(x, window_shape, axis=None, **k):
    x = asarr(x)
    n = window_shape if isinstance(window_shape, (int, np.integer)) else window_shape[0]
    if x.ndim != 1:
        raise Unsupported("sliding windows")
    if n > len(x):
        raise ValueError("window shape cannot be larger than input array shape")
    return NP.stack([x[i:i + n] for i in range(len(x) - n + 1)])


def n_isin(a, b, **k):
    a, b = asarr(a), asarr(b)
    return from_list([b_any([v == w for w in plain(b).reshape(-1)]) for v in plain(a).reshape(-1)], BOOL, a.shape)


def _objects(fn, lists=()):
    """a numpy function that only adds, subtracts and multiplies, or only moves values: run on arrays of objects"""
    def f(*a, **k):
        dts = []

        def cv(x):
            if isinstance(x, (list, tuple)) and (hasarr(x) or hassym(x)):
                if builtins.any(isinstance(v, np.ndarray) for v in x):
                    return [cv(v) for v in x]
                x = mk(x)
            if isinstance(x, SymArray):
                dts.append(x.dt)
                return plain(x)
            if isinstance(x, np.ndarray) and x.dtype.kind in "fc":
                dts.append(x.dtype)
                return _obj(x)
            if isinstance(x, (SymComplex, complex)):
                dts.append(C128)
            elif isinstance(x, (SymReal, float)):
                dts.append(F64)
            return x
        a, k = [cv(x) for x in a], {n: cv(x) for n, x in k.items()}
        dt = np.result_type(*dts) if dts else F64
        r = fn(*a, **k)

        def back(r):
            if isinstance(r, (list, tuple)):
                return type(r)(back(v) for v in r)
            if isinstance(r, np.ndarray) and r.dtype == object:
                return from_list(list(r.reshape(-1)), dt, r.shape)
            return wrap(r)
        return back(r)
    return f


def _lazy(name, fn, own=None):
    """numpy itself without symbolic values, else fn"""
    own = own or getattr(np, name)

    def f(*a, **k):
        if not hassym(a) and not hassym(k):
            return wrap(own(*conc(a), **conc(k)))
        return fn(*a, **k)
    f.__name__ = name
    return f


class _Index:
    """numpy.r_ and numpy.c_"""

    def __init__(self, real, column):
        self.real, self.column = real, column

    def __getitem__(self, t):
        t = t if isinstance(t, tuple) else (t,)
        if not hassym(t) and not hasarr(t):
            return wrap(self.real[t])
        if builtins.any(isinstance(v, str) for v in t):
            raise Unsupported("directives of r_ and c_")
        ts = [from_real(np.asarray(self.real[v])).reshape(-1) if isinstance(v, slice) else asarr(v) for v in t]
        if self.column:
            return NP.concatenate([v.reshape(-1, 1) if v.ndim < 2 else v for v in ts], axis=-1)
        return NP.concatenate([v.reshape(-1) if v.ndim < 1 else v for v in ts])


def n_multi_dot(xs, **k):
    r = asarr(xs[0])
    for x in xs[1:]:
        r = n_dot(r, asarr(x))
    return r


def n_matrix_power(x, n):
    x = asarr(x)
    if n < 0:
        x, n = _inv(x), -n
    r = n_identity(x.shape[0], x.dt)
    for _ in range(n):
        r = n_matmul(r, x)
    return r


def n_piecewise(x, conds, funcs, *a, **k):
    x = asarr(x)
    fs = list(funcs)
    cs = list(conds) if isinstance(conds, (list, tuple)) else [conds]
    d = fs.pop() if len(fs) > len(cs) else 0
    call = lambda f, v: f(v, *a, **k) if callable(f) else f
    out = call(d, x)
    for c, f in zip(cs, fs):
        out = n_where(c, call(f, x), out)
    return asarr(out).astype(x.dt)


def n_digitize(x, bins, right=False):
    return n_searchsorted(bins, x, "left" if right else "right")


def n_vecdot(a, b, axis=-1, **k):
    if axis != -1:
        raise Unsupported("vecdot axis")
    return n_sum(n_conj(asarr(a)) * asarr(b), -1)


def n_permute(x, axes=None):
    return asarr(x).transpose() if axes is None else asarr(x).transpose(axes)


def n_unstack(x, axis=0):
    x = asarr(x)
    return tuple(_sa(r, x.dt) for r in np.moveaxis(plain(x), axis, 0))


def n_block(x):
    if isinstance(x, list) and isinstance(x[0], list):
        return NP.concatenate([NP.concatenate([NP.atleast_2d(asarr(v)) for v in r], axis=-1) for r in x], axis=-2)
    if isinstance(x, list):
        return NP.concatenate([NP.atleast_1d(asarr(v)) for v in x], axis=-1)
    return asarr(x)


def n_argwhere(x):
    return NP.stack([asarr(v) for v in n_nonzero(x)], axis=1)


def n_quantile(x, q, axis=None, **k):
    if axis is not None or k or hassym(q) or isinstance(q, (list, tuple, np.ndarray)):
        raise Unsupported("quantile")
    s = n_sort(asarr(x).reshape(-1))
    t = float(q) * (len(s) - 1)
    i = builtins.min(int(t), len(s) - 1)
    j = builtins.min(i + 1, len(s) - 1)
    return s[i] + (s[j] - s[i]) * (t - i)


def n_bincount(x, weights=None, minlength=0):
    x = asarr(x)
    if weights is not None and not hassym(x) and hassym(weights):
        i = [int(v) for v in plain(x)]
        out = [0.0] * builtins.max([minlength] + [v + 1 for v in i])
        for k, w in zip(i, asarr(weights)):
            out[k] = out[k] + w
        return from_list(out, F64)
    return wrap(np.bincount(conc(asarr(x)), conc(weights) if weights is not None else None, minlength))


def _unsup(name):
    raise Unsupported(name)


def _trim(filt, trim="fb", axis=None):
    x = asarr(filt)
    i, j = 0, len(x)
    if "f" in trim.lower():
        while i < j and x[i] == 0:
            i += 1
    if "b" in trim.lower():
        while j > i and x[j - 1] == 0:
            j -= 1
    return x[i:j] if isinstance(filt, np.ndarray) else list(filt)[i:j]


class Poly1d:
    """numpy.poly1d with symbolic coefficients; leading zeros are kept, so that the order of a sum is only known when concrete"""
    def __init__(self, c_or_r, r=False, variable=None):
        self.c = n_poly(c_or_r) if r else c_or_r.c if isinstance(c_or_r, Poly1d) else asarr(c_or_r)
        if not self.c.ndim:
            self.c = asarr([self.c[()]])

    coeffs = coef = coefficients = property(lambda self: self.c)

    def __call__(self, x):
        if isinstance(x, Poly1d):
            raise Unsupported("polynomial of a polynomial")
        return n_polyval(self.c, x)

    def __array__(self, *a, **k):
        raise Unsupported("array of a symbolic poly1d")

    def __iter__(self):
        return iter(self.c)

    def __len__(self):
        raise Unsupported("order of a symbolic poly1d")

    o = order = property(__len__)

    def __neg__(self):
        return Poly1d(-self.c)

    def _b(self, o, fn):
        return Poly1d(fn(list(self.c), list(o.c if isinstance(o, Poly1d) else asarr(o).reshape(-1))))

    def __mul__(self, o):
        return Poly1d(self.c * o) if isinstance(o, (int, float, complex, SymNum, SymComplex)) else self._b(o, OVR["polymul"])

    __rmul__ = __mul__

    def __truediv__(self, o):
        return Poly1d(self.c / o) if isinstance(o, (int, float, complex, SymNum, SymComplex)) else _unsup("poly1d division")

    def __add__(self, o):
        return self._b(o, OVR["polyadd"])

    __radd__ = __add__

    def __sub__(self, o):
        return self._b(-o, OVR["polyadd"])

    def __getattr__(self, n):
        raise Unsupported("poly1d." + n)


def n_poly1d(c_or_r, r=False, variable=None):
    if not hassym(c_or_r) and not isinstance(c_or_r, Poly1d):
        return np.poly1d(conc(c_or_r), r, variable)
    return Poly1d(c_or_r, r)


OVR = dict(
    poly1d=n_poly1d, trim_zeros=_lazy("trim_zeros", _trim),
    array=n_array, asarray=n_asarray, asanyarray=n_asarray, ascontiguousarray=n_asarray, asfarray=n_asarray,
    zeros=n_zeros, ones=n_ones, empty=n_empty, full=n_full, zeros_like=_like(n_zeros), ones_like=_like(n_ones),
    empty_like=_like(n_empty), full_like=_like(n_full), arange=n_arange, linspace=n_linspace, dot=n_dot, matmul=n_matmul,
    sum=n_sum, nansum=n_sum, prod=n_prod, mean=n_mean, average=n_average, var=n_var, std=n_std, cov=n_cov, conjugate=n_conj, conj=n_conj,
    any=n_any, all=n_all, max=n_max, min=n_min, amax=n_max, amin=n_min, isclose=n_isclose, allclose=n_allclose,
    array_equal=n_array_equal, iscomplex=n_iscomplex, isreal=n_isreal, iscomplexobj=n_iscomplexobj, isrealobj=n_isrealobj,
    real=n_real, imag=n_imag, angle=n_angle, where=n_where, select=n_select, nonzero=n_nonzero, flatnonzero=n_flatnonzero,
    count_nonzero=n_count_nonzero, clip=n_clip, round=n_round, around=n_round, polyval=n_polyval, polyfit=n_polyfit,
    interp=n_interp, convolve=n_convolve, correlate=n_correlate, cumsum=n_cumsum, cumprod=n_cumprod, diff=n_diff,
    outer=n_outer, vdot=n_vdot, inner=n_inner, einsum=n_einsum, trace=n_trace, take=n_take, take_along_axis=n_take_along_axis,
    argsort=n_argsort, sort=n_sort, partition=n_partition, argpartition=n_argpartition, median=n_median, argmax=n_argmax,
    argmin=n_argmin, unique=n_unique, isscalar=n_isscalar, ndim=n_ndim, shape=n_shape, size=n_size, result_type=n_result_type,
    promote_types=n_promote_types, can_cast=n_can_cast, common_type=n_common_type, issubdtype=n_issubdtype, dtype=n_dtype, finfo=n_finfo,
    iinfo=n_iinfo, roots=n_roots, poly=n_poly, polymul=n_polymul, polyadd=n_polyadd, apply_along_axis=n_apply_along_axis,
    vectorize=n_vectorize, copy=n_copy, copyto=n_copyto, put=n_put, array2string=n_array2string, array_str=n_array2string, array_repr=n_array2string,
    shares_memory=n_shares_memory, may_share_memory=n_may_share_memory, fromiter=n_fromiter, fromfunction=n_fromfunction,
    identity=n_identity, eye=n_eye, searchsorted=n_searchsorted, pad=n_pad, ndenumerate=n_ndenumerate, gradient=n_gradient,
    trapezoid=n_trapezoid, trapz=n_trapezoid, sinc=n_sinc, set_printoptions=n_set_printoptions, nan_to_num=n_nan_to_num, isin=n_isin,
    bincount=n_bincount, ptp=lambda x, axis=None: n_max(x, axis) - n_min(x, axis), float_=None, issubclass_=sym_issubclass,
    ndarray=np.ndarray, errstate=np.errstate, newaxis=None, pi=math.pi, e=math.e, inf=math.inf, nan=math.nan, euler_gamma=np.euler_gamma,
    block=_lazy("block", n_block), concat=lambda xs, **k: NP.concatenate(xs, **k), permute_dims=n_permute, unstack=n_unstack, astype=lambda x, t, **k: asarr(x).astype(t),
    r_=_Index(np.r_, False), c_=_Index(np.c_, True), vecdot=n_vecdot, piecewise=_lazy("piecewise", n_piecewise), digitize=_lazy("digitize", n_digitize),
    iterable=lambda x: hasattr(x, "__iter__"), frompyfunc=lambda f, n, m: n_vectorize(f) if m == 1 else np.frompyfunc(f, n, m),
    matvec=lambda a, b: n_matmul(asarr(a), asarr(b)), argwhere=_lazy("argwhere", n_argwhere),
    quantile=_lazy("quantile", n_quantile), percentile=_lazy("percentile", lambda x, q, axis=None, **k: n_quantile(x, q / 100.0, axis, **k)),
    nanmax=lambda x, axis=None: n_max(x, axis), nanmin=lambda x, axis=None: n_min(x, axis), nanmean=lambda x, axis=None: n_mean(x, axis),
    cumulative_sum=lambda x, **k: n_cumsum(x, **k), cumulative_prod=lambda x, **k: n_cumprod(x, **k),
    signbit=_lazy("signbit", lambda x: asarr(x) < 0 if isinstance(x, (list, np.ndarray)) else x < 0), fix=_lazy("fix", lambda x: NP.trunc(x)),
    real_if_close=_lazy("real_if_close", lambda x, tol=100: x if asarr(x).dt.kind != "c" else _unsup("real_if_close")),
    lexsort=_lazy("lexsort", lambda keys, axis=-1: n_argsort(keys[0], kind="stable") if len(keys) == 1 else _unsup("lexsort")),
    **{_n: _lazy(_n, _objects(getattr(np, _n))) for _n in ("tensordot", "kron", "cross", "ediff1d", "choose", "compress", "extract", "polyder", "polyint", "vander", "polysub") if hasattr(np, _n)},
)
for _k in [k for k, v in OVR.items() if v is None and k not in ("newaxis",)]:
    del OVR[_k]

_HARMLESS = {"subok", "device", "like", "kind", "stable", "casting", "optimize", "cache", "equal_nan", "xp", "overwrite_input", "sorted", "check_finite", "overwrite_a"}


def kwfix(f, real, name=""):
    """call a stand-in with the keyword names of the library; an argument it does not know is Unsupported, unless it is the default"""
    P = inspect.Parameter
    try:
        rp = [q.name for q in inspect.signature(real).parameters.values() if q.kind in (P.POSITIONAL_OR_KEYWORD, P.KEYWORD_ONLY)]
        rpos = [q.name for q in inspect.signature(real).parameters.values() if q.kind in (P.POSITIONAL_ONLY, P.POSITIONAL_OR_KEYWORD)]
        ps = list(inspect.signature(f).parameters.values())
    except (TypeError, ValueError):
        return f
    sp = [q.name for q in ps if q.kind in (P.POSITIONAL_ONLY, P.POSITIONAL_OR_KEYWORD)]
    own = set(sp) | {q.name for q in ps if q.kind == P.KEYWORD_ONLY}
    var = any_(q.kind == P.VAR_POSITIONAL for q in ps)
    reads = any_(q.kind == P.VAR_KEYWORD for q in ps) and (name in _READS or not sp or "<lambda>" in f.__qualname__ or "_like." in f.__qualname__ or "_lazy." in f.__qualname__)
    bad = [n for n in rp if n not in own]

    @functools.wraps(f)
    def g(*a, **k):
        if not k:
            return f(*a)
        if name in ("asarray", "asanyarray") and k.get("copy"):
            return n_array(*a, **{x: v for x, v in k.items() if x != "copy"})
        for x in bad:
            if x not in k:
                continue
            i = rpos.index(x) if x in rpos else -1
            if 0 <= i < len(sp) and sp[i] not in rp and i >= len(a) and sp[i] not in k:
                k[sp[i]] = k.pop(x)
            elif var and i == len(a) and i >= len(sp):
                a = a + (k.pop(x),)
        if not reads:
            for x in [x for x in k if x not in own]:
                v = k[x]
                if x not in rp:
                    break                     # the library would not take it either
                if v is None or v is False or v is np._NoValue or (x == "where" and v is True) or x in _HARMLESS or (x == "order" and isinstance(v, str) and v in "CKA") or (x == "copy" and name != "astype") or (x == "mode" and v == "raise"):
                    del k[x]
                elif x == "initial" and name in ("max", "min", "amax", "amin", "prod") and k.get("axis") is None and len(a) < 2:
                    del k[x]
                    b = asarr(a[0])
                    if not b.size:
                        return v
                    r = f(b, **k)
                    return r * v if name == "prod" else (NP.maximum if "max" in name else NP.minimum)(r, v)
                else:
                    raise Unsupported("%s with %s" % (name, x))
        return f(*a, **k)
    return g


any_ = builtins.any
_READS = {"clip", "pad", "polyfit", "gradient", "fromfunction", "apply_along_axis", "arange", "quantile", "percentile", "piecewise", "set_printoptions"}
for _k, _v in list(OVR.items()):
    if isinstance(_v, types.FunctionType) and hasattr(np, _k):
        OVR[_k] = kwfix(_v, getattr(np, _k), _k)


class _Mod(types.ModuleType):
    def __init__(self, name, real, ovr):
        super().__init__(name)
        ovr = {k: kwfix(v, getattr(real, k), k) if isinstance(v, types.FunctionType) and hasattr(real, k) else v for k, v in ovr.items()}
        self.__dict__["_real"], self.__dict__["_ovr"] = real, ovr

    def __getattr__(self, name):
        if name.startswith("__"):
            return getattr(self._real, name)
        f = self._ovr.get(name)
        if f is None:
            r = getattr(self._real, name)
            if isinstance(r, type):
                f = r
            elif isinstance(r, types.ModuleType):
                f = _Mod(r.__name__, r, {})
            elif callable(r):
                f = _delegate(r, self.__name__ + "." + name)
            else:
                f = r
        setattr(self, name, f)
        return f


def _dftm(n, inverse):
    E = np.eye(n)
    return from_real(_clean((np.fft.ifft if inverse else np.fft.fft)(E, axis=0)))


def _fft(inverse):
    def f(x, n=None, axis=-1, norm=None, **k):
        if isinstance(x, (list, tuple)) or not isinstance(x, SymArray):
            x = asarr(x)
        if x.isconc():
            return wrap((np.fft.ifft if inverse else np.fft.fft)(x.concrete(), n, axis, norm))
        if x.ndim == 1:
            if n is not None and n != len(x):
                x = x[:n] if n < len(x) else NP.concatenate((x, n_zeros(n - len(x))))
            r = n_matmul(_dftm(len(x), inverse), x)
        elif x.ndim == 2 and axis in (-1, 1):
            return NP.stack([f(row, n, -1, norm) for row in x])
        elif x.ndim == 2:
            return NP.stack([f(row, n, -1, norm) for row in x.T], axis=1)
        else:
            raise Unsupported("fft axis")
        if norm in (None, "backward"):
            return r.astype(complex)
        m = len(x)
        if norm == "ortho":
            return r * (math.sqrt(m) if inverse else 1.0 / math.sqrt(m))
        return r * m if inverse else r / m
    return f


def _rfft(x, n=None, axis=-1, norm=None, **k):
    r = _fft(False)(x, n, axis, norm)
    m = r.shape[-1] // 2 + 1
    return r[..., :m] if r.ndim > 1 else r[:m]


def _fftshift(inv):
    def f(x, axes=None):
        x = asarr(x)
        if axes is None and x.ndim == 1 or axes in (-1, 0) and x.ndim == 1:
            n = len(x)
            s = n // 2 if not inv else -(n // 2)
            return NP.roll(x, s)
        if axes in (-1, 1) and x.ndim == 2:
            return NP.stack([f(r) for r in x])
        if axes == 0 and x.ndim == 2:
            return NP.stack([f(r) for r in x.T], axis=1)
        return wrap((np.fft.ifftshift if inv else np.fft.fftshift)(x.concrete(), axes))
    return f


def _inv(x):
    x = asarr(x)
    if x.isconc():
        return wrap(np.linalg.inv(x.concrete()))
    n = x.shape[0]
    if x.ndim != 2 or x.shape[1] != n:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    d = _det(x)
    if bool(d == 0):
        raise np.linalg.LinAlgError("Singular matrix")
    P = plain(x)
    if n == 1:
        return mk([[1.0 / P[0, 0]]])
    w = 1.0 / d
    out = []
    for i in range(n):
        for j in range(n):
            m = np.delete(np.delete(P, j, 0), i, 1)
            c = _detp(m)
            out.append((c if (i + j) % 2 == 0 else -c) * w)
    return from_list(out, np.result_type(x.dt, F64), (n, n))


def _detp(P):
    n = P.shape[0]
    if n == 0:
        return 1.0
    if n == 1:
        return P[0, 0]
    r = None
    for j in range(n):
        m = np.delete(P[1:], j, 1)
        t = P[0, j] * _detp(m)
        if j & 1:
            t = -t
        r = t if r is None else r + t
    return r


def _det(x):
    x = asarr(x)
    if x.isconc():
        return np.linalg.det(x.concrete())
    return _detp(plain(x))


def _solve(a, b):
    a, b = asarr(a), asarr(b)
    if a.isconc() and b.isconc():
        return wrap(np.linalg.solve(a.concrete(), b.concrete()))
    if a.isconc():
        return n_matmul(from_real(np.linalg.inv(a.concrete())), b)
    return n_matmul(_inv(a), b)


def _norm(x, ord=None, axis=None, keepdims=False):
    x = asarr(x)
    if x.isconc():
        return wrap(np.linalg.norm(x.concrete(), ord, axis, keepdims))
    if ord in (None, 2) and (x.ndim == 1 or axis is not None or ord is None):
        if x.dt.kind == "c":
            s = n_sum(x.real * x.real + x.imag * x.imag, axis, keepdims=keepdims)
        else:
            s = n_sum(x * x, axis, keepdims=keepdims)
        return NP.sqrt(s)
    if x.ndim == 1 or axis is not None:
        if ord == 1:
            return n_sum(abs(x), axis, keepdims=keepdims)
        if ord == math.inf:
            return n_max(abs(x), axis, keepdims=keepdims)
    raise Unsupported("norm")


def _pinv(x, **k):
    x = asarr(x)
    if x.isconc():
        return wrap(np.linalg.pinv(x.concrete(), **k))
    if x.ndim == 2 and x.shape[0] == x.shape[1]:
        return _inv(x)
    raise Unsupported("pinv")


def _lstsq(a, b, rcond=None):
    a, b = asarr(a), asarr(b)
    if a.isconc():
        P = np.linalg.pinv(a.concrete())
        return n_matmul(from_real(_clean(P)), b), mk([0.0]), int(np.linalg.matrix_rank(a.concrete())), mk([0.0])
    raise Unsupported("lstsq")


SUB = {
    "fft": _Mod("numpy.fft", np.fft, dict(fft=_fft(False), ifft=_fft(True), rfft=_rfft, fftshift=_fftshift(False), ifftshift=_fftshift(True))),
    "linalg": _Mod("numpy.linalg", np.linalg, dict(inv=_inv, det=_det, solve=_solve, norm=_norm, pinv=_pinv, lstsq=_lstsq, multi_dot=n_multi_dot, matrix_power=n_matrix_power, vecdot=n_vecdot, outer=lambda a, b: n_outer(a, b), vector_norm=lambda x, axis=None, keepdims=False, ord=2: _norm(x, ord if axis is not None or asarr(x).ndim == 1 else None, axis, keepdims), matrix_norm=lambda x, **k: _norm(x, **k), matmul=lambda a, b: n_matmul(asarr(a), asarr(b)), trace=n_trace, tensordot=_lazy("tensordot", _objects(np.tensordot)), cross=_lazy("cross", _objects(np.cross)), LinAlgError=np.linalg.LinAlgError)),
    "lib": types.SimpleNamespace(stride_tricks=types.SimpleNamespace(sliding_window_view=n_sliding)),
    "polynomial": _Mod("numpy.polynomial", np.polynomial, {}),
    "random": _Mod("numpy.random", np.random, {}),
}
SUB["lib"].stride_tricks.__name__ = "numpy.lib.stride_tricks"

NP = NumpyShim()
for _r, _v in ((float, VFloat), (int, VInt), (complex, VComplex), (bool, VBool)):
    _TYPES[_r] = _v
