"""Reference definitions shared by the checks, written from the documentation with plain arithmetic."""
import math


def fir(b, s, x):
    """y[n] = sum b[i] x[n-i]; s[i] is the sample i + 1 steps before x[0]"""
    out = []
    for n in range(len(x)):
        t = 0.0
        for i in range(len(b)):
            if n - i >= 0:
                v = x[n - i]
            else:
                j = i - n - 1
                v = s[j] if j < len(s) else 0.0
            t = t + b[i] * v
        out.append(t)
    return out


def iir(a, b, x):
    """y[n] = sum a[i] y[n-i] + sum b[i] x[n-i] from rest"""
    y = []
    for n in range(len(x)):
        t = 0.0
        for i in range(len(b)):
            if n - i >= 0:
                t = t + b[i] * x[n - i]
        for i in range(1, len(a)):
            if n - i >= 0:
                t = t + a[i] * y[n - i]
        y.append(t)
    return y


def horner(c, t):
    """sum c[k] t**k"""
    r = 0.0
    for v in reversed(c):
        r = r * t + v
    return r


def deriv(c, d):
    """coefficients of the d-th derivative of sum c[k] t**k"""
    for _ in range(d):
        c = [k * c[k] for k in range(1, len(c))]
    return c


def cis(t):
    """exp(i pi t) for a number t, exact at multiples of a quarter turn"""
    t = t % 2.0
    q = {0.0: (1.0, 0.0), 0.5: (0.0, 1.0), 1.0: (-1.0, 0.0), 1.5: (0.0, -1.0)}.get(t)
    return complex(*q) if q else complex(math.cos(math.pi * t), math.sin(math.pi * t))


def total(v):
    t = 0.0
    for x in v:
        t = t + x
    return t


def mixed(c, name, n, at, kind="f", lo=-4, hi=4):
    """a long signal: listed sixteenths (integers for kind i), symbolic values at some places"""
    out, s = [], 12345 + n
    for k in range(n):
        v = []
        for _ in range(2):
            s = (s * 1103515245 + 12345) % (1 << 31)
            v.append((s >> 16) % 129 - 64)
        out.append(v[0] // 16 if kind == "i" else v[0] / 16.0 if kind == "f" else complex(v[0] / 16.0, v[1] / 16.0))
    at = sorted(set(k % n for k in at))
    for k, v in zip(at, c.vec(name, len(at), lo, hi, kind=kind)):
        out[k] = v
    return out


def signal(c, name, n, kind="f", most=24, lo=-4, hi=4):
    """symbolic samples, in a long signal only a few of them"""
    return list(c.vec(name, n, lo, hi, kind=kind)) if n <= most else mixed(c, name, n, (0, n // 3, n // 2, n - 2), kind, lo, hi)
