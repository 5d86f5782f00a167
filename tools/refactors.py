"""Edits that change no behaviour; the named checks have to stay quiet on each: python3 tools/refactors.py [ID...]

Each is applied to a scratch copy of the package, the repository's tests and the checks are run on the copy."""
import concurrent.futures
import os
import shutil
import subprocess
import sys
import tempfile
import time

R = []


def r(name, checks, *edits):
    R.append((name, checks.split(), edits))


FIR, IIR = "filters/fir_filter.py", "filters/iir_filter.py"
r("fir1", "F01 F04 F08 G02 G03 T04", (FIR, '''        for ii in range(0, len(x)):
            if len(self.s) > 1:
                self.s[1:] = self.s[:-1]
            self.s[0] = x[ii]
            y[ii] = self.b.dot(self.s)
        return y''', '''        for ii, v in enumerate(x):
            y[ii] = self._step(v)
        return y

    def _step(self, v):
        self.s[1:] = self.s[:-1].copy()
        self.s[0] = v
        return numpy.dot(self.b, self.s)'''))
r("fir2", "F01 F03 F04 G03 T04", (FIR, '''        for ii in range(0, len(x)):
            if len(self.s) > 1:
                self.s[1:] = self.s[:-1]
            self.s[0] = x[ii]
            y[ii] = self.b.dot(self.s)
        return y''', '''        s = self.s
        n = s.size
        ii = 0
        while ii < x.shape[0]:
            for kk in range(n - 1, 0, -1):
                s[kk] = s[kk - 1]
            s[0] = x[ii]
            y[ii] = sum(self.b[kk] * s[kk] for kk in range(n))
            ii += 1
        return y'''))
r("fir3", "F01 F04 G02 G03", (FIR, '''            if len(self.s) > 1:
                self.s[1:] = self.s[:-1]
            self.s[0] = x[ii]
            y[ii] = self.b.dot(self.s)
''', '''            self.s[:] = numpy.concatenate((x[ii : ii + 1], self.s[:-1]))
            y[ii] = self.b @ self.s
'''))
r("fir4", "F01 F04 G03", (FIR, '''            if len(self.s) > 1:
                self.s[1:] = self.s[:-1]
            self.s[0] = x[ii]
            y[ii] = self.b.dot(self.s)
''', '''            self.s[:] = numpy.roll(self.s, 1)
            self.s[0] = x[ii]
            y[ii] = (self.b * self.s).sum()
'''))
r("fir5", "F05 G01", (FIR, '''                b *= numpy.array([((-1.0) ** x) for x in range(0, len(b))])
                b /= sum(b * numpy.array([((-1.0) ** x) for x in range(0, len(b))]))
''', '''                w = numpy.ones(len(b))
                w[1::2] = -1.0
                b = b * w
                b = b / numpy.sum(b * w)
'''), (FIR, '''            if order <= 0:
                raise ValueError(f"Order = {order} Expected Order in (0, inf)")
            if count <= 0:
                raise ValueError(f"Count = {count} Expected Count in (0, inf)")
            if complement:''', '''            for name, value in (("Order", order), ("Count", count)):
                if not value > 0:
                    raise ValueError(f"{name} = {value} Expected {name} in (0, inf)")
            if complement:'''))
r("fir6", "F05", (FIR, '''                    if abs(e) < error:
                        b, error = v, abs(e)
                        if error < (10e3 * eps):
                            break
                    scale = numpy.maximum(scale + rate * e, eps)''', '''                    magnitude = math.fabs(e)
                    if error > magnitude:
                        b = v
                        error = magnitude
                    if error < 1.0e4 * eps:
                        break
                    scale += rate * e
                    if scale < eps:
                        scale = eps'''))
r("fir7", "F07 G01", (FIR, '''        f = numpy.linspace(-1.0, 1.0 - 2.0 / length, length)
        y = freqz(self.b, [1.0, 0.0], math.pi * f)[1] ** count
        return y, f''', '''        f = numpy.arange(length) * (2.0 / length) - 1.0
        _, h = freqz(self.b, 1.0, worN=numpy.pi * f)
        y = numpy.power(h, count)
        return y, f'''), (FIR, '''            y[0] = y[1] * 2.0 - y[2]''', '''            y[0] = y[1] + (y[1] - y[2])'''), (FIR, '''        z = numpy.tile(numpy.roots(self.b), count)
        return numpy.zeros(count * (len(self.b) - 1)), z[numpy.argsort(abs(z))]''', '''        z = numpy.concatenate([numpy.roots(self.b)] * count)
        z = numpy.array(sorted(z, key=abs))
        return numpy.zeros((len(self.b) - 1) * count), z'''))
r("fir8", "F01 F03 F04 G02 G03", (FIR, '''        self._promote(x)
        self.s[:] = x''', '''        self._promote(x)
        self.s.fill(x)'''), (FIR, '''        if len(b) < len(s):
            b = numpy.concatenate((b, numpy.zeros(len(s) - len(b))))
        if len(s) < len(b):
            s = numpy.concatenate((s, numpy.zeros(len(b) - len(s))))
''', '''        n = max(len(b), len(s))
        b = numpy.pad(b, (0, n - len(b)))
        s = numpy.pad(s, (0, n - len(s))) if len(s) else numpy.zeros(n)
'''))
r("iir1", "F02 F03 F04 F09 F15 G03", (IIR, '''            if len(self.s) > 1:
                self.s[0] += self.a.dot(self.s)
                self.s[1:] = self.s[:-1]
            self.s[0] = x[ii]
            c = self.a * self.b[0] + self.b
            y[ii] = c.dot(self.s)
        return y''', '''            self._shift(x[ii])
            y[ii] = (self.b[0] * self.a + self.b).dot(self.s)
        return y

    def _shift(self, x):
        if len(self.s) > 1:
            w = self.s[0] + self.a @ self.s
            self.s[2:] = self.s[1:-1]
            self.s[1] = w
        self.s[0] = x'''))
r("iir2", "F02 F03 F04 F09 F15 G03", (IIR, '''        for ii in range(0, len(x)):
            if len(self.s) > 1:
                self.s[0] += self.a.dot(self.s)
                self.s[1:] = self.s[:-1]
            self.s[0] = x[ii]
            c = self.a * self.b[0] + self.b
            y[ii] = c.dot(self.s)
        return y''', '''        c = self.b + self.b[0] * self.a
        for ii, v in enumerate(x):
            if self.s.size >= 2:
                self.s[0] = self.s[0] + numpy.sum(self.a * self.s)
                for kk in reversed(range(1, self.s.size)):
                    self.s[kk] = self.s[kk - 1]
            self.s[0] = v
            y[ii] = numpy.inner(c, self.s)
        return y'''))
r("iir3", "F06", (IIR, '''            for ii in range(2, order + 1):
                x = numpy.concatenate((u, numpy.zeros(2))) + numpy.concatenate(([0.0], ((2.0 * ii) - 1.0) * a))
                u, a = a, x''', '''            for ii in range(2, order + 1):
                u, a = a, numpy.polyadd(numpy.append(u, [0.0, 0.0]), (2.0 * ii - 1.0) * a)'''), (IIR, '''            for ii in range(1, (order // 2) + 1):
                a = numpy.convolve(
                    a,
                    numpy.array(
                        [
                            1.0,
                            -2.0 * math.cos((((2.0 * ii) + order - 1.0) / (2.0 * order)) * math.pi),
                            1.0,
                        ]
                    ),
                )''', '''            for ii in range(0, order // 2):
                c = math.cos(math.pi * (2.0 * ii + 1.0 + order) / (2.0 * order))
                a = numpy.polymul(a, [1.0, -2.0 * c, 1.0])'''))
r("iir4", "F06 G01", (IIR, '''        b = numpy.poly(-numpy.ones(order))
        b *= (1.0 - sum(a)) / sum(b)
        return a, b''', '''        b = numpy.array([float(math.comb(order, k)) for k in range(order + 1)])
        b = b * ((1.0 - a.sum()) / 2.0**order)
        return a, b'''), (IIR, '''                a *= numpy.array([((-1.0) ** x) for x in range(0, len(a))])
                b *= numpy.array([((-1.0) ** x) for x in range(0, len(b))])
                b /= sum(b * numpy.array([((-1.0) ** x) for x in range(0, len(b))])) / sum(
                    numpy.concatenate(([1.0], -a[1:])) * numpy.array([((-1.0) ** x) for x in range(0, len(a))])
                )''', '''                w = (-1.0) ** numpy.arange(len(a))
                v = (-1.0) ** numpy.arange(len(b))
                a = a * w
                b = b * v
                d = numpy.copy(-a)
                d[0] = 1.0
                b = b * (numpy.dot(d, w) / numpy.dot(b, v))'''))
r("iir5", "F07", (IIR, '''            y = freqz(self.b, numpy.concatenate(([1.0], -self.a[1:])), math.pi * f)[1] ** count''', '''            d = -self.a
            d[0] = 1.0
            w, h = freqz(b=self.b, a=d, worN=math.pi * f)
            y = h**count'''), (IIR, '''            if max(abs(y[:6])) > min(abs(y[:6])) * 10.0:
                y[:6] = numpy.sign(y[:6]) * min(abs(y[:6]))
            if max(abs(y[-6:])) > min(abs(y[-6:])) * 10.0:
                y[-6:] = numpy.sign(y[-6:]) * min(abs(y[-6:]))''', '''            for v in (y[:6], y[-6:]):
                low, high = numpy.min(numpy.abs(v)), numpy.max(numpy.abs(v))
                if high > 10.0 * low:
                    v[:] = numpy.sign(v) * low'''))
r("iir6", "F03 F04", (IIR, '''        if len(self.s) > 1:
            self.s[1:] = x * (1.0 - self.b[0]) / (self.a[1:] * self.b[0] + self.b[1:]).sum()
        self.s[0] = x''', '''        self.s[0] = x
        if len(self.s) > 1:
            c = numpy.sum(self.b[1:]) + self.b[0] * numpy.sum(self.a[1:])
            self.s[1:] = (1.0 - self.b[0]) * x / c'''))
CB = "filters/complex_bandpass_filter.py"
r("cb1", "F13 F04 G02 G03", (CB, '''        for ii in range(0, len(x)):
            y[ii] = x[ii] * self.b[0]
            e[ii] = d[ii] - y[ii]
            b[ii] = self.b[0]
            self.b[0] += self.rate * e[ii] * numpy.conjugate(x[ii])
        return y, e, b''', '''        w, rate = self.b[0], self.rate
        for ii, (u, v) in enumerate(zip(x, d)):
            b[ii] = w
            y[ii] = w * u
            e[ii] = v - w * u
            w = w + rate * (u.conjugate() * e[ii])
        self.b[0] = w
        return y, e, b'''), (CB, '''        x = self._filter.filter(numpy.ones(len(d)) * self.frequency)''', '''        x = self._filter.filter(numpy.full(len(d), self.frequency, float))'''))
r("cb2", "F13 F04 G03", (CB, '''        y, e, b = (
            numpy.zeros(len(x), complex),
            numpy.zeros(len(x), complex),
            numpy.zeros(len(x), complex),
        )
''', '''        y = numpy.empty_like(x)
        e, b = numpy.empty(x.shape, dtype=x.dtype), numpy.zeros_like(y)
'''))
CE = "filters/complex_exponential_filter.py"
r("ce1", "F12 F13 F04 G01 G03", (CE, '''        phase = self.phase
        for ii in range(0, len(x)):
            y[ii] = numpy.exp(1j * math.pi * phase)
            phase += x[ii]
        phase = numpy.fmod(phase, 2.0)
        if abs(phase) > 1.0:
            phase -= numpy.sign(phase) * 2.0
        self.phase = phase
        return y''', '''        phase = self.phase
        for ii in range(0, len(x)):
            y[ii] = complex(math.cos(math.pi * phase), math.sin(math.pi * phase))
            phase = phase + x[ii]
        self.phase = self._wrap(phase)
        return y

    @staticmethod
    def _wrap(phase):
        phase = math.fmod(phase, 2.0)
        if phase > 1.0:
            return phase - 2.0
        if phase < -1.0:
            return phase + 2.0
        return phase'''))
r("ce2", "F12 F04", (CE, '''        for ii in range(0, len(x)):
            y[ii] = numpy.exp(1j * math.pi * phase)
            phase += x[ii]
''', '''        p = numpy.concatenate(([phase], phase + numpy.cumsum(x)))
        y = numpy.cos(math.pi * p[:-1]) + 1j * numpy.sin(math.pi * p[:-1])
        phase = p[-1]
'''))
r("ce3", "F12 F04 F13", (CE, '''            y[ii] = numpy.exp(1j * math.pi * phase)
            phase += x[ii]
''', '''            y[ii] = cmath.rect(1.0, math.pi * phase)
            phase += x[ii]
'''), (CE, "import math\n", "import cmath\nimport math\n"))
CF = "filters/complex_frequency_filter.py"
r("cf1", "F14 F04 G02 G03", (CF, '''        x = abs(d)  # type: ignore
        x[numpy.isclose(x, 0.0)] = 1.0
        x = d / x
''', '''        magnitude = numpy.abs(d)
        x = d / numpy.where(numpy.isclose(magnitude, 0.0), 1.0, magnitude)
'''), (CF, '''            y[ii] = numpy.angle(self.b[0]) / math.pi
            e[ii] = x[ii] - self.b[0] * self.s[0]
            b[ii] = self.b[0]
            self.b[0] += self.rate * e[ii] * numpy.conjugate(self.s[0])
            self.s[0] = x[ii]
''', '''            w, s = self.b[0], self.s[0]
            b[ii] = w
            y[ii] = numpy.arctan2(w.imag, w.real) / numpy.pi
            e[ii] = x[ii] - w * s
            self.b[0] = w + self.rate * numpy.conj(s) * e[ii]
            self.s[0] = x[ii]
'''))
r("cf2", "F14 G01", (CF, '''        if numpy.isclose(x, 0.0):
            self.s[0] = 1.0
        else:
            self.s[0] = x / abs(x)''', '''        r = abs(x)
        self.s[0] = 1.0 if numpy.isclose(r, 0.0) else x / r'''), (CF, '''        if (rate < 0.0) or (rate > 1.0):
            raise ValueError(f"Rate = {rate} Expected Rate in [0.0, 1.0]")
        self._rate = rate

    def __init__''', '''        if not 0.0 <= rate <= 1.0:
            raise ValueError(f"Rate = {rate} Expected Rate in [0.0, 1.0]")
        self._rate = rate

    def __init__'''))
DF = "filters/derivative_filter.py"
r("df1", "F08 G01", (DF, '''            2: numpy.array([1.0, 0.0, -1.0]) * (1.0 / 2.0),''', '''            2: numpy.array([0.5, 0.0, -0.5]),'''), (DF, '''        super().__init__(b=DerivativeFilter.B[derivative][order])''', '''        b = DerivativeFilter.B[derivative].get(order)
        super().__init__(b=b)'''))
GF = "filters/goertzel_filter.py"
r("gf1", "F15 F04 G02 G03", (GF, '''        jj = 0
        for ii in range(0, len(x)):
            v = super().filter(u * self._w[self._index] * x[ii : ii + 1])
            self._index += 1
            if self._index >= len(self._w):
                y[jj] = v[0]
                self.s[:] = 0.0
                self._index = 0
                jj += 1
        if jj != len(y):
            y = y[:jj]
        return y''', '''        jj = 0
        for v in x:
            w = super().filter(numpy.array([u * self._w[self._index] * v]))
            self._index = (self._index + 1) % len(self._w)
            if self._index == 0:
                y[jj] = w[-1]
                jj += 1
                self.s.fill(0.0)
        return y[:jj]'''))
r("gf2", "F15 F04 G03", (GF, '''        jj = 0
        for ii in range(0, len(x)):
            v = super().filter(u * self._w[self._index] * x[ii : ii + 1])
            self._index += 1
            if self._index >= len(self._w):
                y[jj] = v[0]
                self.s[:] = 0.0
                self._index = 0
                jj += 1
        if jj != len(y):
            y = y[:jj]
        return y''', '''        y, start = [], 0
        while start < len(x):
            stop = min(start + len(self._w) - self._index, len(x))
            n = stop - start
            v = super().filter(u * self._w[self._index : self._index + n] * x[start:stop])
            self._index += n
            start = stop
            if self._index == len(self._w):
                y.append(v[-1])
                self.s[:] = 0.0
                self._index = 0
        return numpy.array(y, complex)'''))
IF = "filters/integral_filter.py"
r("if1", "F09 G01", (IF, '''        2: numpy.array([1.0, 4.0, 1.0]) * (1.0 / 6.0),''', '''        2: numpy.array([1.0, 4.0, 1.0]) / 6.0,'''), (IF, '''        super().__init__(a=numpy.array([0.0, 1.0]), b=IntegralFilter.B[order])''', '''        a = numpy.zeros(max(2, order + 1))
        a[1] = 1.0
        super().__init__(a=a, b=IntegralFilter.B[order])'''))
PF = "filters/pid_filter.py"
r("pf1", "F10 F04 G03", (PF, '''            self.s[2] = x[ii] - self.s[0]
            if abs(self.s[1] + x[ii]) < self.limit:
                self.s[1] += x[ii]
            self.s[0] = x[ii]
            y[ii] = self.b.dot(self.s)
''', '''            v = x[ii]
            total = self.s[1] + v
            if not abs(total) >= self.limit:
                self.s[1] = total
            self.s[0], self.s[2] = v, v - self.s[0]
            p, i, d = self.b
            y[ii] = p * self.s[0] + i * self.s[1] + d * self.s[2]
'''))
PR = "filters/polynomial_rate_filter.py"
r("pr1", "F16 G03", (PR, '''            u = numpy.linspace(0, len(x) - 1, len(x))
            v = numpy.linspace(0, int(len(x) * self.rate + 0.5) - 1, int(len(x) * self.rate + 0.5)) / self.rate
            y = numpy.interp(x=v, xp=u, fp=x)''', '''            n = int(len(x) * self.rate + 0.5)
            y = numpy.interp(numpy.arange(n) / self.rate, numpy.arange(len(x)), x)'''))
r("pr2", "F16 G03", (PR, '''                if index < 1.0:
                    b = numpy.polyfit(u, x[ii : ii + 4], self.order)
                    while (index < 1.0) and (jj < len(y)):
                        y[jj] = numpy.polyval(b, index)
                        index += v
                        jj += 1
                index -= 1.0
                ii += 1''', '''                b = numpy.polyfit(u, x[ii : ii + 4], self.order) if index < 1.0 else None
                while index < 1.0 and jj < len(y):
                    value = 0.0
                    for c in b:
                        value = value * index + c
                    y[jj] = value
                    jj, index = jj + 1, index + v
                ii, index = ii + 1, index - 1.0'''))
PP = "filters/polyphase_rate_filter.py"
r("pp1", "F17 F04 G03", (PP, '''                kk = min(int(numpy.round(self._index)), rr - 1)
                self._index += rr / self.rate
                self.s[0] = x[ii]
                y[jj] = b[kk, :].dot(self.s)
                jj += 1''', '''                kk = int(numpy.rint(self._index))
                if kk > rr - 1:
                    kk = rr - 1
                self.s[0] = x[ii]
                y[jj] = numpy.sum(b[kk] * self.s)
                jj += 1
                self._index += rr / self.rate'''))
r("pp2", "F17 F04", (PP, '''            b = numpy.reshape(firfilter.b, (rr, cc), "F")
            for ii in range(0, rr):
                b[ii, :] /= sum(b[ii, :])
''', '''            b = firfilter.b.reshape((cc, rr)).T.copy()
            b /= b.sum(axis=1, keepdims=True)
'''))
RF = "filters/rank_filter.py"
r("rf1", "F11 F03 F04 G03", (RF, '''            y[ii] = self.s[numpy.argsort(abs(self.s))][self.index]
            if len(self.s) > 1:
                self.s[1:] = self.s[:-1]
''', '''            y[ii] = self.s[numpy.argsort(numpy.abs(self.s))[self.index]]
            for kk in range(len(self.s) - 1, 0, -1):
                self.s[kk] = self.s[kk - 1]
'''))
r("rf2", "F11 F04", (RF, '''            y[ii] = self.s[numpy.argsort(abs(self.s))][self.index]
''', '''            y[ii] = sorted(self.s, key=abs)[self.index]
'''))
WF = "filters/window_filter.py"
r("wf1", "F18 G01", (WF, '''            b *= (order + 1) / sum(abs(b))
''', '''            b = b / numpy.abs(b).mean()
'''))
r("wf2", "F18 G02 G03", (WF, '''        return self.b * x''', '''        return numpy.multiply(x, self.b)'''), (WF, '''        window = (style.lower(), 7.0) if style == "Kaiser" else style.lower()
''', '''        window = style.lower()
        if window == "kaiser":
            window = ("kaiser", 7.0)
'''))
CT = "transforms/complex_transform.py"
r("ct1", "T01 G03", (CT, '''            y = numpy.matmul(
                numpy.linalg.inv(ComplexTransform.COEFFICIENT),
                numpy.array([v.real, v.imag, numpy.zeros(cols)]),
            )''', '''            y = numpy.linalg.solve(ComplexTransform.COEFFICIENT, numpy.vstack((v.real, v.imag, numpy.zeros(cols))))'''), (CT, '''            v = numpy.matmul(ComplexTransform.COEFFICIENT, x)
            y = v[0, :] + 1j * v[1, :]
''', '''            v = ComplexTransform.COEFFICIENT.dot(x)
            y = v[0] + v[1] * 1j
'''))
FT = "transforms/fourier_transform.py"
r("ft1", "T02 G02 G03", (FT, '''            y = numpy.concatenate((u[len(u) // 2 :], u[: len(u) // 2]))
''', '''            y = numpy.fft.ifftshift(u)
'''), (FT, '''            y = numpy.concatenate((y[(len(y) + 1) // 2 :], y[: (len(y) + 1) // 2]))
''', '''            y = numpy.fft.fftshift(y)
'''))
r("ft2", "T02 G03", (FT, '''            y = numpy.concatenate((y[(len(y) + 1) // 2 :], y[: (len(y) + 1) // 2]))
''', '''            y = numpy.roll(y, len(y) // 2)
'''), (FT, '''            y, f = numpy.fft.ifft(y) * len(y) / v, numpy.linspace(0, len(y) - 1, len(y))
''', '''            f = numpy.arange(len(y), dtype=float)
            y = len(y) * numpy.fft.ifft(y) / v
'''))
PT = "transforms/psd_transform.py"
r("pt1", "T03 G02 G03", (PT, '''        y = [
            numpy.abs(numpy.fft.fft(x[ii : ii + len(b)] * b)[: len(b) // 2] / len(b)) ** 2
            for ii in range(0, len(x) - len(b) + 1, index)
        ]
''', '''        y = []
        ii, n = 0, len(b)
        while ii + n <= len(x):
            v = numpy.fft.fft(b * x[ii : ii + n]) / n
            y.append((v * v.conj()).real[: n // 2])
            ii += index
'''))
r("pt2", "T03", (PT, '''        return numpy.stack(y) if (spectrogram) else numpy.sum(y, axis=0) / len(y), numpy.arange(
            len(b) // 2
        ) * (2.0 / len(b))''', '''        f = numpy.linspace(0.0, 2.0 * (len(b) // 2) / len(b), len(b) // 2, endpoint=False)
        y = numpy.array(y)
        if not spectrogram:
            y = numpy.mean(y, axis=0)
        return y, f'''))
ZT = "transforms/z_transform.py"
r("zt1", "T05 F06", (ZT, '''            p = numpy.roots(u)
            p = (1.0 + p / (2.0 * t)) / (1.0 - p / (2.0 * t))
            z = numpy.roots(v)
            z = (1.0 + z / (2.0 * t)) / (1.0 - z / (2.0 * t))
''', '''            p, z = (ZTransform._bilinear(numpy.roots(w), t) for w in (u, v))
'''), (ZT, '''    @staticmethod
    def transform(''', '''    @staticmethod
    def _bilinear(s, t):
        return (2.0 * t + s) / (2.0 * t - s)

    @staticmethod
    def transform('''))
r("zt2", "T05 F06 G02", (ZT, '''        while not u[0]:
            u = numpy.delete(u, 0)
        while not v[0]:
            v = numpy.delete(v, 0)
''', '''        u = u[numpy.flatnonzero(u)[0] :]
        v = v[numpy.flatnonzero(v)[0] :]
'''), (ZT, '''                q = numpy.ones(1)
                for jj in range(0, len(r)):
                    if jj != ii:
                        q = numpy.convolve(q, numpy.array([1.0, -numpy.exp(p[jj] / t)]))
''', '''                q = numpy.atleast_1d(numpy.poly(numpy.exp(numpy.delete(p, ii) / t)))
'''))
r("zt3", "T05 F06", (ZT, '''        a /= -a[0]
        a[0] = 0.0
        b *= (1.0 - sum(a)) / sum(b)
        return a, b''', '''        a = a / -a[0]
        gain = -a.sum()
        a[0] = 0.0
        return a, b * (gain / b.sum())'''))
WT = "transforms/wavelet_transform.py"
r("wt1", "T04 G02 G03", (WT, '''                for ii in range(0, rr):
                    for kk in range(0, 2):
                        fir_filter[kk].s[:] = 0.0
                        u = fir_filter[kk].filter(v[ii, 0:cc])
                        y[ii, kk * (cc // 2) : (kk + 1) * (cc // 2)] = u[1::2]
''', '''                for kk in range(0, 2):
                    for ii in range(0, rr):
                        fir_filter[kk].reset(0.0)
                        y[ii, kk * (cc // 2) : (kk + 1) * (cc // 2)] = fir_filter[kk].filter(v[ii, 0:cc])[1::2]
'''), (WT, '''                        u[::2] = y[ii, kk * (cc // 2) : (kk + 1) * (cc // 2)]
                        fir_filter[kk].s[:] = 0.0
                        w += 2.0 * fir_filter[kk].filter(u)
                    y[ii, 0:cc] = w
''', '''                        h = cc // 2
                        u[0::2] = y[ii, kk * h : (kk + 1) * h]
                        fir_filter[kk].s.fill(0.0)
                        w = w + fir_filter[kk].filter(u) * 2
                    y[ii, :cc] = w
'''))
r("wt2", "T04 G02", (WT, '''            self._b[kk][1][ii[kk] :: 2] *= -1.0
            if n != 1:
                self._b[kk][1][:] = numpy.flip(self._b[kk][1], 0)
''', '''            w = self._b[kk][1]
            w[ii[kk] :: 2] = -w[ii[kk] :: 2]
            if n > 1:
                w[:] = w[::-1].copy()
'''))
r("wt3", "T04", (WT, '''                        u = fir_filter[kk].filter(v[ii, 0:cc])
                        y[ii, kk * (cc // 2) : (kk + 1) * (cc // 2)] = u[1::2]
''', '''                        u = numpy.convolve(v[ii, 0:cc], b[kk])[:cc]
                        y[ii, kk * (cc // 2) : (kk + 1) * (cc // 2)] = u[1::2]
'''))
DM = "models/diversity_model.py"
r("dm1", "M01 G02 G03", (DM, '''        Chebyshev=lambda x, y: max(abs(x - y)),
        Euclidean=lambda x, y: sum((x - y) ** 2) ** 0.5,
        Geometric=lambda x, y: numpy.prod(abs(x - y)) ** (1.0 / len(x)),
        Manhattan=lambda x, y: sum(abs(x - y)),
''', '''        Chebyshev=lambda x, y: numpy.max(numpy.abs(x - y)),
        Euclidean=lambda x, y: numpy.sqrt(numpy.sum(numpy.square(x - y))),
        Geometric=lambda x, y: numpy.power(numpy.abs(x - y).prod(), 1.0 / x.size),
        Manhattan=lambda x, y: numpy.abs(y - x).sum(),
'''), (DM, '''        cc = 0
        for ii in range(0, self.s.shape[0]):
            if numpy.isclose(self.s[ii, 0], numpy.finfo(float).max):
                break
            cc += 1
''', '''        cc = self._count()
'''), (DM, '''    def clear(self) -> None:''', '''    def _count(self):
        for cc, s in enumerate(self.s):
            if numpy.isclose(s[0], numpy.finfo(float).max):
                return cc
        return len(self.s)

    def clear(self) -> None:'''))
r("dm2", "M01", (DM, '''                    u, s = numpy.inf, numpy.array(self.s)
                    s[kk, :] = x[ii, :]
                    for uu in range(0, cc - 1):
                        for vv in range(uu + 1, cc):
                            d = self._distance(s[uu, :], s[vv, :])
                            if d < u:
                                u = d
''', '''                    s = self.s.copy()
                    s[kk] = x[ii]
                    u = min(
                        (self._distance(s[uu], s[vv]) for uu in range(cc) for vv in range(uu + 1, cc)), default=numpy.inf
                    )
'''))
r("dm3", "M01 G02", (DM, '''                    for uu in range(0, cc - 1):
                        for vv in range(uu + 1, cc):
                            d = self._distance(s[uu, :], s[vv, :])
                            if d < u:
                                u = d
''', '''                    for p, q in itertools.combinations(s, 2):
                        u = min(u, self._distance(p, q))
'''), (DM, "from collections.abc import Callable\n", "import itertools\nfrom collections.abc import Callable\n"))
GM = "models/gaussian_model.py"
r("gm1", "M02 G02", (GM, '''            z = x[numpy.where(y == ii)[0]]
            u = z.mean(0)
            i = numpy.linalg.inv(((z - u).T @ (z - u) / z.shape[0]) + r)
            self._model.append(dict(covariancei=i, mean=u))''', '''            z = x[y == ii]
            u = numpy.mean(z, axis=0)
            d = z - u
            c = numpy.dot(d.T, d) / len(z) + r
            self._model.append({"covariancei": numpy.linalg.inv(c), "mean": u})'''), (GM, '''                v[jj, ii] = max((x[jj] - u) @ i @ (x[jj] - u).T, 0.0)''', '''                d = x[jj] - u
                v[jj, ii] = max(d.dot(i).dot(d), 0.0)'''))
r("gm2", "M02", (GM, '''            i = numpy.linalg.inv(((z - u).T @ (z - u) / z.shape[0]) + r)
''', '''            i = numpy.linalg.inv(numpy.cov(z, rowvar=False, bias=True).reshape((x.shape[1], x.shape[1])) + r)
'''), (GM, '''        self._label = sorted(set(y))
''', '''        self._label = list(numpy.unique(y))
'''), (GM, '''        for jj in range(0, len(v)):
            for ii in range(0, len(self._model)):
                model = self._model[ii]
                i, u = model["covariancei"], model["mean"]
                v[jj, ii] = max((x[jj] - u) @ i @ (x[jj] - u).T, 0.0)
''', '''        for ii, model in enumerate(self._model):
            d = x - model["mean"]
            v[:, ii] = numpy.maximum(numpy.sum((d @ model["covariancei"]) * d, axis=1), 0.0)
'''))
r("gm3", "M02", (GM, '''                v[jj, ii] = max((x[jj] - u) @ i @ (x[jj] - u).T, 0.0)
''', '''                v[jj, ii] = numpy.einsum("i,ij,j->", x[jj] - u, i, x[jj] - u)
                if v[jj, ii] < 0.0:
                    v[jj, ii] = 0.0
'''))
MM = "models/gaussian_mixture_model.py"
r("mm1", "M03 G02", (MM, '''                for kk in range(0, self.order):
                    i, u, w = (
                        model.precisions_[kk],
                        model.means_[kk],
                        model.weights_[kk],
                    )
                    v[jj, ii] += w * numpy.exp(-0.5 * max((x[jj] - u) @ i @ (x[jj] - u).T, 0.0))
        return numpy.array(self._label)[numpy.fliplr(numpy.argsort(v, axis=1))]''', '''                for i, u, w in zip(model.precisions_, model.means_, model.weights_):
                    d = x[jj] - u
                    v[jj, ii] += w * math.exp(-max(numpy.dot(d, i @ d), 0.0) / 2.0)
        return numpy.array(self._label)[numpy.argsort(v, axis=1)[:, ::-1]]'''), (MM, "import numpy\n", "import math\n\nimport numpy\n"))
r("mm2", "M03", (MM, '''        v = numpy.zeros((x.shape[0], len(self._model)))
''', '''        v = numpy.array([[0.0] * len(self._model) for _ in x])
'''), (MM, '''            z = x[numpy.where(y == ii)[0]]
            model =''', '''            z = x[[k for k in range(len(y)) if y[k] == ii]]
            model ='''))
LG = "commons/log.py"
r("lg1", "C03 C04", (LG, '''            try:
                v = logger.level(level.upper())
            except Exception as ex:
                raise ValueError(f"Level = {level} Expected Level in {Log.LEVEL}") from ex
            if v.no >= Log._level.no:
''', '''            v = cls._find(level)
            if Log._level.no <= v.no:
'''), (LG, '''            try:
                Log._level = logger.level(level.upper())
            except Exception as ex:
                raise ValueError(f"Level = {level} Expected Level in {Log.LEVEL}") from ex
''', '''            Log._level = cls._find(level)
'''), (LG, '''    @classmethod
    def level(cls''', '''    @staticmethod
    def _find(level):
        try:
            return logger.level(level.upper())
        except Exception as ex:
            raise ValueError(f"Level = {level} Expected Level in {Log.LEVEL}") from ex

    @classmethod
    def level(cls'''))
r("lg2", "C03 C04", (LG, '''            with contextlib.suppress(ValueError):
                logger.remove(Log._identity)
            Log._identity = logger.add(''', '''            try:
                logger.remove(cls._identity)
            except ValueError:
                pass
            cls._identity = logger.add('''), (LG, '''        with Log._rlock:
            if not Log._identity:
                Log.stream(sys.stdout)
''', '''        Log._rlock.acquire()
        try:
            Log._write(level, entry)
        finally:
            Log._rlock.release()

    @classmethod
    def _write(cls, level, entry):
        if True:
            if not Log._identity:
                Log.stream(sys.stdout)
'''))
r("lg3", "C03 C04", (LG, '''                    info = sys.exc_info()[-1]
                    while info:
                        entry += f" @ File = {pathlib.Path(info.tb_frame.f_code.co_filename).parts[-1]} Line = {info.tb_lineno}"
                        info = info.tb_next
''', '''                    frames = []
                    info = sys.exc_info()[2]
                    while info is not None:
                        name = os.path.basename(info.tb_frame.f_code.co_filename)
                        frames.append(" @ File = %s Line = %d" % (name, info.tb_lineno))
                        info = info.tb_next
                    entry = entry + "".join(frames)
'''), (LG, "\nimport sys\n", "\nimport os\nimport sys\n"))
RC = "commons/rest_client.py"
r("rc1", "C02", (RC, '''            requests.request(method="head", url=self.url, proxies=self.proxy, timeout=self.timeout)
            value = True
        except Exception:
            value = False
        return value''', '''            requests.head(self.url, proxies=self.proxy, timeout=self.timeout)
        except Exception:
            return False
        return True'''), (RC, '''        api = api.strip("/")
        url = self.url
        if api:
            url += "/" + api
''', '''        url = "/".join([v for v in (self.url, api.strip("/")) if v])
'''))
r("rc2", "C02", (RC, '''        with requests.request(''', '''        value = requests.request('''), (RC, '''        ) as value:
            value.raise_for_status()
        return value''', '''        )
        try:
            value.raise_for_status()
        finally:
            value.close()
        return value'''))
SE = "commons/serial.py"
r("se1", "C01", (SE, '''        u = base64.b85decode(bytes(x, encoding))
        try:
            with io.BytesIO(gzip.decompress(u)) as fio:
                y = pickle.load(fio)  # noqa
        except Exception:
            with io.BytesIO(u) as fio:
                y = pickle.load(fio)  # noqa
        return y''', '''        u = base64.b85decode(x.encode(encoding))
        try:
            u = gzip.decompress(u)
        except Exception:
            pass
        return pickle.loads(u)  # noqa'''), (SE, '''        with io.BytesIO() as fio:
            pickle.dump(x, fio)
            y = str(base64.b85encode(gzip.compress(fio.getvalue()) if compress else fio.getvalue()), encoding)
        return y''', '''        u = pickle.dumps(x)
        if compress:
            u = gzip.compress(u)
        return base64.b85encode(u).decode(encoding)'''), (SE, '''        return hashlib.sha3_256(bytes(x, encoding)).hexdigest()''', '''        h = hashlib.sha3_256()
        h.update(x.encode(encoding))
        return h.hexdigest()'''))
# second round of rewrites, helper extraction and reordering
r("n1", "F02 F03 F04 F15 G03", (IIR, '''        y = numpy.zeros(len(x), self._promote(self.a, x))
        for ii in range(0, len(x)):
            if len(self.s) > 1:
                self.s[0] += self.a.dot(self.s)
                self.s[1:] = self.s[:-1]
            self.s[0] = x[ii]
            c = self.a * self.b[0] + self.b
            y[ii] = c.dot(self.s)
        return y
''', '''        dtype = self._promote(self.a, x)
        output = []
        for sample in x:
            output.append(self._advance(sample))
        return numpy.array(output, dtype=dtype)

    def _advance(self, sample):
        if self.s.shape[0] > 1:
            feedback = sum(coefficient * state for coefficient, state in zip(self.a, self.s))
            self.s = numpy.concatenate(([0.0], [self.s[0] + feedback], self.s[1:-1]))
        self.s[0] = sample
        return ((self.a * self.b[0] + self.b) * self.s).sum()
'''))
r("n2", "F06 G01", (IIR, '''            for _ in range(0, index):
                u, v = IirFilter._evaluate(style, scale * frequency, order)
                x = numpy.exp(1j * math.pi * frequency)
                e = (2.0 ** (-0.5)) - (
                    (abs(numpy.polyval(v, x) / numpy.polyval(numpy.concatenate(([1.0], -u[1:])), x))) ** count
                )
                if abs(e) < error:
                    a, b, error = u, v, abs(e)
                    if error < (10e3 * eps):
                        break
                scale = max(scale + rate * e, eps)
''', '''            x = numpy.exp(1j * math.pi * frequency)
            target, tolerance = math.sqrt(0.5), 1.0e4 * eps
            iteration = 0
            while iteration < index and not error < tolerance:
                u, v = IirFilter._evaluate(style, scale * frequency, order)
                magnitude = abs(numpy.polyval(v, x)) / abs(numpy.polyval(numpy.append([1.0], -u[1:]), x))
                e = target - magnitude**count
                if abs(e) < error:
                    a, b = u, v
                    error = abs(e)
                scale = max(scale + rate * e, eps)
                iteration += 1
'''))
r("n3", "F06 G01", (IIR, '''            if complement:
                a *= numpy.array([((-1.0) ** x) for x in range(0, len(a))])
                b *= numpy.array([((-1.0) ** x) for x in range(0, len(b))])
                b /= sum(b * numpy.array([((-1.0) ** x) for x in range(0, len(b))])) / sum(
                    numpy.concatenate(([1.0], -a[1:])) * numpy.array([((-1.0) ** x) for x in range(0, len(a))])
                )
            b *= gain
''', '''            if complement:
                sign = numpy.ones(max(len(a), len(b)))
                sign[1::2] = -1.0
                a, b = a * sign[: len(a)], b * sign[: len(b)]
                denominator = -a.copy()
                denominator[0] = 1.0
                b = b * (numpy.dot(denominator, sign[: len(a)]) / numpy.dot(b, sign[: len(b)]))
            b = gain * b
'''))
r("n4", "F07 G01", (IIR, '''        if length > 6:
            if max(abs(y[:6])) > min(abs(y[:6])) * 10.0:
                y[:6] = numpy.sign(y[:6]) * min(abs(y[:6]))
            if max(abs(y[-6:])) > min(abs(y[-6:])) * 10.0:
                y[-6:] = numpy.sign(y[-6:]) * min(abs(y[-6:]))
        return y, f
''', '''        if length > 6:
            for edge in (slice(None, 6), slice(-6, None)):
                magnitude = numpy.abs(y[edge])
                if magnitude.max() > 10.0 * magnitude.min():
                    y[edge] = numpy.sign(y[edge]) * magnitude.min()
        return y, f
'''))
r("n5", "F17 F04 G03", (PP, '''        b = PolyphaseRateFilter.B
        rr = b.shape[0]
        ii, jj = 0, 0
        while (ii < len(x)) and (jj < len(y)):
            if self._index < rr:
                kk = min(int(numpy.round(self._index)), rr - 1)
                self._index += rr / self.rate
                self.s[0] = x[ii]
                y[jj] = b[kk, :].dot(self.s)
                jj += 1
            while (ii < len(x)) and (self._index >= rr):
                self.s[0] = x[ii]
                self.s[1:] = self.s[:-1]
                self._index -= rr
                ii += 1
        return y[: min(jj, len(y))]
''', '''        bank, rows = self.b, self.b.shape[0]
        ii = jj = 0
        while True:
            if ii >= len(x) or jj >= len(y):
                break
            if self._index < rows:
                self.s[0] = x[ii]
                y[jj] = numpy.inner(bank[min(int(round(float(self._index))), rows - 1)], self.s)
                self._index = self._index + rows / self._rate
                jj += 1
            ii = self._consume(x, ii, rows)
        return y[:jj]

    def _consume(self, x, ii, rows):
        while self._index >= rows and ii < len(x):
            self.s[0] = x[ii]
            self.s[1:] = numpy.copy(self.s[:-1])
            self._index -= rows
            ii += 1
        return ii
'''))
r("n6", "F16 G03", (PR, '''            while ii < cc:
                if index < 1.0:
                    b = numpy.polyfit(u, x[ii : ii + 4], self.order)
                    while (index < 1.0) and (jj < len(y)):
                        y[jj] = numpy.polyval(b, index)
                        index += v
                        jj += 1
                index -= 1.0
                ii += 1
''', '''            for ii in range(cc):
                if index < 1.0:
                    b = numpy.poly1d(numpy.polyfit(u, x[ii : ii + 4], self.order))
                    while index < 1.0 and jj < y.shape[0]:
                        y[jj] = b(index)
                        jj, index = jj + 1, index + v
                index -= 1.0
'''))
r("n7", "F15 F04 G03 G02", (GF, '''        y = numpy.zeros(int(numpy.ceil(len(x) / len(self._w))) + 1, complex)
        u = (1.0 + int(not numpy.iscomplexobj(x))) / len(self._w)
        jj = 0
        for ii in range(0, len(x)):
            v = super().filter(u * self._w[self._index] * x[ii : ii + 1])
            self._index += 1
            if self._index >= len(self._w):
                y[jj] = v[0]
                self.s[:] = 0.0
                self._index = 0
                jj += 1
        if jj != len(y):
            y = y[:jj]
        return y
''', '''        blocks = []
        window = self._w * ((1.0 if numpy.iscomplexobj(x) else 2.0) / len(self._w))
        for sample in x:
            (value,) = super().filter([window[self._index] * sample])
            self._index = (self._index + 1) % len(window)
            if self._index == 0:
                blocks.append(value)
                self.s.fill(0.0)
        return numpy.array(blocks, dtype=complex)
'''))
r("n8", "F14 F04 G02 G03", (CF, '''        x = abs(d)  # type: ignore
        x[numpy.isclose(x, 0.0)] = 1.0
        x = d / x
        y, e, b = (
            numpy.zeros(len(x)),
            numpy.zeros(len(x), complex),
            numpy.zeros(len(x), complex),
        )
        for ii in range(0, len(x)):
            y[ii] = numpy.angle(self.b[0]) / math.pi
            e[ii] = x[ii] - self.b[0] * self.s[0]
            b[ii] = self.b[0]
            self.b[0] += self.rate * e[ii] * numpy.conjugate(self.s[0])
            self.s[0] = x[ii]
        return y, e, b
''', '''        magnitude = numpy.abs(d)
        x = numpy.array([u / (1.0 if numpy.isclose(v, 0.0) else v) for u, v in zip(d, magnitude)], dtype=complex)
        b = numpy.empty(x.shape, dtype=complex)
        e = numpy.empty_like(b)
        for ii, value in enumerate(x):
            coefficient, state = self.b[0], self.s[0]
            b[ii] = coefficient
            e[ii] = value - coefficient * state
            self.b[0] = coefficient + self.rate * e[ii] * state.conjugate()
            self.s[0] = value
        return numpy.arctan2(b.imag, b.real) / math.pi, e, b
'''))
r("n9", "F18 G01 G03 F15 T03", (WF, '''            b *= (order + 1) / sum(abs(b))
''', '''            b = b / numpy.mean(numpy.abs(b))
'''))
r("n10", "F18 G01", (WF, '''        window = (style.lower(), 7.0) if style == "Kaiser" else style.lower()
''', '''        window = style.lower()
        if window == "kaiser":
            window = ("kaiser", 7.0)
'''), (WF, '''        b = get_window(window, order + 1, False)
''', '''        b = get_window(window=window, Nx=1 + order, fftbins=False)
'''))
r("n11", "T03 G02 G03", (PT, '''        y = [
            numpy.abs(numpy.fft.fft(x[ii : ii + len(b)] * b)[: len(b) // 2] / len(b)) ** 2
            for ii in range(0, len(x) - len(b) + 1, index)
        ]
        return numpy.stack(y) if (spectrogram) else numpy.sum(y, axis=0) / len(y), numpy.arange(
            len(b) // 2
        ) * (2.0 / len(b))
''', '''        n = b.shape[0]
        start = numpy.arange(0, len(x) - n + 1, index)
        frames = numpy.array([b * x[ii : ii + n] for ii in start])
        z = numpy.fft.fft(frames, axis=1)[:, : n // 2] / n
        y = z.real**2 + z.imag**2
        f = numpy.linspace(0.0, 1.0, n // 2, endpoint=False) if n % 2 == 0 else numpy.fft.fftfreq(n, 0.5)[: n // 2]
        if not spectrogram:
            y = y.mean(axis=0)
        return y, f
'''))
r("n12", "T02 G02 G03", (FT, '''            y = numpy.concatenate((u[len(u) // 2 :], u[: len(u) // 2]))
            y, f = numpy.fft.ifft(y) * len(y) / v, numpy.linspace(0, len(y) - 1, len(y))
        else:
            y, f = (
                numpy.fft.fft(v * u) / len(u),
                (numpy.arange(len(u)) - len(u) // 2) * (2.0 / len(u)),
            )
            y = numpy.concatenate((y[(len(y) + 1) // 2 :], y[: (len(y) + 1) // 2]))
        return y, f
''', '''            n = len(u)
            y = n * numpy.fft.ifft(numpy.fft.ifftshift(u)) / v
            f = numpy.arange(n, dtype=float)
        else:
            n = u.size
            y = numpy.fft.fftshift(numpy.fft.fft(u * v, n)) / n
            f = 2.0 * numpy.fft.fftshift(numpy.fft.fftfreq(n))
        return y, f
'''))
r("n13", "T05 F06", (ZT, '''            r, p, _ = residue(v, u)
            a, b = numpy.ones(1) + 0j, 0j  # type: ignore
            for ii in range(0, len(r)):
                a = numpy.convolve(a, numpy.array([1.0, -numpy.exp(p[ii] / t)]))
                q = numpy.ones(1)
                for jj in range(0, len(r)):
                    if jj != ii:
                        q = numpy.convolve(q, numpy.array([1.0, -numpy.exp(p[jj] / t)]))
                b += r[ii] * q
            if len(b) < len(a):
                b = numpy.concatenate((b, numpy.zeros(len(a) - len(b))))
            a, b = a.real, b.real
''', '''            r, p, _ = residue(v, u)
            e = numpy.exp(p / t)
            a = numpy.poly(e)
            b = sum(r[ii] * numpy.atleast_1d(numpy.poly(numpy.delete(e, ii))) for ii in range(len(r)))
            b = numpy.pad(b, (0, len(a) - len(b)))
            a, b = numpy.real(a), numpy.real(b)
'''))
r("n14", "T05 F06", (ZT, '''            p = numpy.roots(u)
            p = (1.0 + p / (2.0 * t)) / (1.0 - p / (2.0 * t))
            z = numpy.roots(v)
            z = (1.0 + z / (2.0 * t)) / (1.0 - z / (2.0 * t))
            if len(z) < len(p):
                z = numpy.concatenate((z, numpy.zeros(len(p) - len(z))))
            a, b = numpy.poly(p).real, numpy.poly(z).real
''', '''            def warp(q):
                return (2.0 * t + q) / (2.0 * t - q)

            p, z = warp(numpy.roots(u)), warp(numpy.roots(v))
            z = numpy.append(z, [0.0] * max(len(p) - len(z), 0))
            a = numpy.poly(p).real
            b = numpy.poly(z).real
'''))
r("n15", "M01 G02 G03", (DM, '''                v, jj = self._diversity, -1
                for kk in range(0, cc):
                    u, s = numpy.inf, numpy.array(self.s)
                    s[kk, :] = x[ii, :]
                    for uu in range(0, cc - 1):
                        for vv in range(uu + 1, cc):
                            d = self._distance(s[uu, :], s[vv, :])
                            if d < u:
                                u = d
                    if u > v:
                        v, jj = u, kk
                if v > self._diversity:
                    self._diversity, self.s[jj, :] = v, x[ii, :]
''', '''                best, replace = self._diversity, None
                for kk in range(cc):
                    candidate = self.s.copy()
                    candidate[kk] = x[ii]
                    value = self._minimum(candidate, cc)
                    if value > best:
                        best, replace = value, kk
                if replace is not None:
                    self._diversity = best
                    self.s[replace] = x[ii]
'''), (DM, '''    def fit(self, x''', '''    def _minimum(self, s, cc):
        import itertools

        return min((self._distance(s[uu], s[vv]) for uu, vv in itertools.combinations(range(cc), 2)), default=numpy.inf)

    def fit(self, x'''))
r("n16", "M01", (DM, '''        Euclidean=lambda x, y: sum((x - y) ** 2) ** 0.5,
        Geometric=lambda x, y: numpy.prod(abs(x - y)) ** (1.0 / len(x)),
        Manhattan=lambda x, y: sum(abs(x - y)),
''', '''        Euclidean=lambda x, y: numpy.linalg.norm(x - y),
        Geometric=lambda x, y: numpy.power(numpy.abs(x - y).prod(), 1.0 / x.size),
        Manhattan=lambda x, y: numpy.linalg.norm(x - y, ord=1),
'''))
r("n17", "M02 G02", (GM, '''        v = numpy.zeros((x.shape[0], len(self._model)))
        for jj in range(0, len(v)):
            for ii in range(0, len(self._model)):
                model = self._model[ii]
                i, u = model["covariancei"], model["mean"]
                v[jj, ii] = max((x[jj] - u) @ i @ (x[jj] - u).T, 0.0)
        return numpy.array(self._label)[numpy.argsort(v, axis=1)]
''', '''        columns = []
        for model in self._model:
            d = x - model["mean"]
            columns.append(numpy.maximum(numpy.einsum("ij,jk,ik->i", d, model["covariancei"], d), 0.0))
        v = numpy.stack(columns, axis=1)
        return numpy.asarray(self._label)[v.argsort(axis=1)]
'''))
r("n18", "M02", (GM, '''            z = x[numpy.where(y == ii)[0]]
            u = z.mean(0)
            i = numpy.linalg.inv(((z - u).T @ (z - u) / z.shape[0]) + r)
''', '''            z = x[y == ii, :]
            u = numpy.average(z, axis=0)
            i = numpy.linalg.inv(numpy.cov(z, rowvar=False, bias=True).reshape(r.shape) + r)
'''))
r("n19", "M03 G02", (MM, '''                for kk in range(0, self.order):
                    i, u, w = (
                        model.precisions_[kk],
                        model.means_[kk],
                        model.weights_[kk],
                    )
                    v[jj, ii] += w * numpy.exp(-0.5 * max((x[jj] - u) @ i @ (x[jj] - u).T, 0.0))
''', '''                for i, u, w in zip(model.precisions_, model.means_, model.weights_):
                    d = x[jj] - u
                    v[jj, ii] += w * math.exp(-max(d.dot(i).dot(d), 0.0) / 2.0)
'''), (MM, '''import numpy
''', '''import math

import numpy
'''))
r("n20", "M03", (MM, '''        return numpy.array(self._label)[numpy.fliplr(numpy.argsort(v, axis=1))]
''', '''        index = numpy.argsort(v, axis=1)[:, ::-1]
        return numpy.take(numpy.array(self._label), index)
'''))
r("n21", "C02", (RC, '''        api = api.strip("/")
        url = self.url
        if api:
            url += "/" + api
''', '''        parts = [self.url, api.strip("/")]
        url = "/".join(part for index, part in enumerate(parts) if part or not index)
'''), (RC, '''            requests.request(method="head", url=self.url, proxies=self.proxy, timeout=self.timeout)
            value = True
        except Exception:
            value = False
        return value
''', '''            requests.request("head", self.url, proxies=self.proxy, timeout=self.timeout)
        except Exception:
            return False
        else:
            return True
'''))
r("n22", "C03 C04", (LG, '''            if v.no >= Log._level.no:
                if isinstance(entry, Exception):
                    entry = f"Exception = {type(entry).__name__} {entry}"
                    info = sys.exc_info()[-1]
                    while info:
                        entry += f" @ File = {pathlib.Path(info.tb_frame.f_code.co_filename).parts[-1]} Line = {info.tb_lineno}"
                        info = info.tb_next
                logger.log(v.name, entry)''', '''            if v.no < cls._level.no:
                return
            logger.log(v.name, cls._describe(entry))

    @classmethod
    def _describe(cls, entry):
        if not isinstance(entry, Exception):
            return entry
        parts = ["Exception = {} {}".format(type(entry).__name__, entry)]
        trace = sys.exc_info()[2]
        while trace is not None:
            parts.append(" @ File = {} Line = {}".format(pathlib.Path(trace.tb_frame.f_code.co_filename).name, trace.tb_lineno))
            trace = trace.tb_next
        return "".join(parts)'''))
r("n23", "C03 C04", (LG, '''        with Log._rlock:
            if (not stream) or (not hasattr(stream, "write")):
                raise ValueError(f"Stream = {stream} Expected Write")
            with contextlib.suppress(ValueError):
                logger.remove(Log._identity)
''', '''        if (not stream) or (not hasattr(stream, "write")):
            raise ValueError(f"Stream = {stream} Expected Write")
        with Log._rlock:
            try:
                logger.remove(Log._identity)
            except ValueError:
                pass
'''))
r("n24", "F15 F04 G02", (GF, '''        if (not len(b)) or (numpy.isclose(b, 0.0).all()):''', '''        if b.size == 0 or numpy.allclose(b, 0.0):'''), (GF, '''        self.a[1] = 2.0 * math.cos(math.pi * frequency)
        self.b[1] = -numpy.exp(-1j * math.pi * frequency)
        self._frequency = frequency
''', '''        theta = math.pi * frequency
        self._frequency = frequency
        self.b[1] = complex(-math.cos(theta), math.sin(theta))
        self.a[1] = 2.0 * numpy.cos(theta)
'''))
r("o1", "F05 G01", (FIR, '''            for _ in range(0, index):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    v = firwin(
                        numtaps=order + 1,
                        cutoff=min(scale * frequency, 1.0 - eps),
                        width=None,
                        window=window,
                        pass_zero=True,
                        scale=True,
                        fs=2.0,
                    )
                    if numpy.isnan(v).any():
                        raise ValueError(f"V = {v}")
                    x = numpy.exp(1j * math.pi * frequency)
                    e = (2.0 ** (-0.5)) - (abs(numpy.polyval(v, x)) ** count)
                    if abs(e) < error:
                        b, error = v, abs(e)
                        if error < (10e3 * eps):
                            break
                    scale = numpy.maximum(scale + rate * e, eps)
''', '''            x = numpy.exp(1j * math.pi * frequency)
            tolerance = 10e3 * eps
            for _ in range(index):
                v = FirFilter._candidate(order + 1, min(scale * frequency, 1.0 - eps), window)
                e = 1.0 / math.sqrt(2.0) - numpy.power(numpy.abs(numpy.polyval(v, x)), count)
                magnitude = abs(e)
                if magnitude < error:
                    b, error = v, magnitude
                if error < tolerance:
                    break
                scale = max(scale + rate * e, eps)
'''), (FIR, '''    def delay(self''', '''    @staticmethod
    def _candidate(taps, cutoff, window):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            v = firwin(taps, cutoff, window=window, pass_zero="lowpass", fs=2.0)
        if not numpy.all(numpy.isfinite(v)):
            raise ValueError(f"V = {v}")
        return v

    def delay(self'''))
r("o2", "F07 G01", (FIR, '''        f = numpy.linspace(-1.0, 1.0 - 2.0 / length, length)
        y = freqz(self.b, [1.0, 0.0], math.pi * f)[1] ** count
        return y, f
''', '''        f = -1.0 + 2.0 * numpy.arange(length) / length
        _, h = freqz(b=self.b, a=1, worN=numpy.pi * f)
        return numpy.power(h, count), f
'''), (FIR, '''        return numpy.zeros(count * (len(self.b) - 1)), z[numpy.argsort(abs(z))]''', '''        order = numpy.abs(z).argsort()
        return numpy.zeros((len(self.b) - 1) * count), numpy.take(z, order)'''))
r("o3", "F01 F03 F04 F05 G01 G03", (FIR, '''        if len(b) < len(s):
            b = numpy.concatenate((b, numpy.zeros(len(s) - len(b))))
        if len(s) < len(b):
            s = numpy.concatenate((s, numpy.zeros(len(b) - len(s))))
        if not issubclass(b.dtype.type, numpy.inexact):
            b = b.astype(float)
        super().__init__()
        self._b, self._s = numpy.array(b), numpy.array(s, numpy.result_type(b, s))
''', '''        super().__init__()
        if not numpy.issubdtype(b.dtype, numpy.inexact):
            b = numpy.asarray(b, dtype=float)
        size = max(len(b), len(s))
        b = numpy.pad(b, (0, size - len(b)), mode="constant")
        s = numpy.hstack((s, numpy.zeros(size - len(s)))) if len(s) < size else s
        self._b = b.copy()
        self._s = s.astype(numpy.promote_types(b.dtype, s.dtype))
'''))
r("o4", "F10 F04 G03 G02", (PF, '''        for ii in range(0, len(x)):
            self.s[2] = x[ii] - self.s[0]
            if abs(self.s[1] + x[ii]) < self.limit:
                self.s[1] += x[ii]
            self.s[0] = x[ii]
            y[ii] = self.b.dot(self.s)
        return y
''', '''        for ii, error in enumerate(x):
            previous, integral = self.s[0], self.s[1]
            accumulated = integral + error
            if not abs(accumulated) < self.limit:
                accumulated = integral
            self.s[:] = (error, accumulated, error - previous)
            y[ii] = numpy.dot(self.s, self.b)
        return y
'''))
r("o5", "F11 F04 G03 G02", (RF, '''            self.s[0] = x[ii]
            y[ii] = self.s[numpy.argsort(abs(self.s))][self.index]
            if len(self.s) > 1:
                self.s[1:] = self.s[:-1]
''', '''            self.s[0] = x[ii]
            order = sorted(range(len(self.s)), key=lambda kk: abs(self.s[kk]))
            y[ii] = self.s[order[self._index]]
            self.s = numpy.insert(self.s[:-1], 0, self.s[0])
'''))
r("o6", "F12 F13 F04 G01 G03", (CE, '''        y = numpy.zeros(len(x), complex)
        phase = self.phase
        for ii in range(0, len(x)):
            y[ii] = numpy.exp(1j * math.pi * phase)
            phase += x[ii]
        phase = numpy.fmod(phase, 2.0)
        if abs(phase) > 1.0:
            phase -= numpy.sign(phase) * 2.0
        self.phase = phase
        return y
''', '''        total = self._phase + numpy.concatenate(([0.0], numpy.cumsum(x)))
        y = numpy.cos(math.pi * total[:-1]) + 1j * numpy.sin(math.pi * total[:-1])
        phase = math.fmod(total[-1], 2.0)
        if phase > 1.0:
            phase -= 2.0
        elif phase < -1.0:
            phase += 2.0
        self._phase = phase
        return y
'''))
r("o7", "F12 G01", (CE, '''        if (numpy.iscomplex(x).any()) or (not len(x)) or (abs(x) > 1.0).any():
            raise ValueError(f"X = {x}")
        x = x.real
''', '''        if not x.size:
            raise ValueError(f"X = {x}")
        if numpy.any(x.imag != 0.0) or numpy.max(numpy.abs(x)) > 1.0:
            raise ValueError(f"X = {x}")
        x = numpy.real(x)
'''))
r("o8", "F13 F04 G02 G03", (CB, '''        x = self._filter.filter(numpy.ones(len(d)) * self.frequency)
        y, e, b = (
            numpy.zeros(len(x), complex),
            numpy.zeros(len(x), complex),
            numpy.zeros(len(x), complex),
        )
        for ii in range(0, len(x)):
            y[ii] = x[ii] * self.b[0]
            e[ii] = d[ii] - y[ii]
            b[ii] = self.b[0]
            self.b[0] += self.rate * e[ii] * numpy.conjugate(x[ii])
        return y, e, b
''', '''        x = self._filter.filter(numpy.full(len(d), self._frequency, dtype=float))
        rows = [self._update(reference, desired) for reference, desired in zip(x, d)]
        y, e, b = (numpy.array(column, dtype=complex) for column in zip(*rows))
        return y, e, b

    def _update(self, reference, desired):
        weight = self.b[0]
        output = weight * reference
        error = desired - output
        self.b[0] = weight + self._rate * error * reference.conjugate()
        return output, error, weight
'''))
r("o9", "T01 G03 G01", (CT, '''        if rows == 1:
            v = numpy.reshape(x, cols)
            if not neutral:
                v = v / ComplexTransform.GAIN
            y = numpy.matmul(
                numpy.linalg.inv(ComplexTransform.COEFFICIENT),
                numpy.array([v.real, v.imag, numpy.zeros(cols)]),
            )
        else:
            v = numpy.matmul(ComplexTransform.COEFFICIENT, x)
            y = v[0, :] + 1j * v[1, :]
            if not neutral:
                y *= ComplexTransform.GAIN
        return y
''', '''        gain = 1.0 if neutral else cls.GAIN
        if rows == 3:
            real, imag, _ = cls.COEFFICIENT @ x
            return gain * (real + 1j * imag)
        v = x.ravel() / gain
        stack = numpy.vstack((numpy.real(v), numpy.imag(v), numpy.zeros_like(v, dtype=float)))
        return numpy.linalg.solve(cls.COEFFICIENT, stack)
'''))
r("o10", "C01", (SE, '''        u = base64.b85decode(bytes(x, encoding))
        try:
            with io.BytesIO(gzip.decompress(u)) as fio:
                y = pickle.load(fio)  # noqa
        except Exception:
            with io.BytesIO(u) as fio:
                y = pickle.load(fio)  # noqa
        return y
''', '''        u = base64.b85decode(x.encode(encoding))
        try:
            return pickle.loads(gzip.decompress(u))
        except Exception:
            return pickle.loads(u)
'''), (SE, '''        with io.BytesIO() as fio:
            pickle.dump(x, fio)
            y = str(base64.b85encode(gzip.compress(fio.getvalue()) if compress else fio.getvalue()), encoding)
        return y
''', '''        data = pickle.dumps(x)
        if compress:
            data = gzip.compress(data=data)
        return base64.b85encode(data).decode(encoding=encoding)
'''))
r("o11", "F15 F03", (GF, '''        if (not len(b)) or (numpy.isclose(b, 0.0).all()):
            raise ValueError(f"B = {b}")
        if (frequency < -1.0) or (frequency > 1.0):
            raise ValueError(f"Frequency = {frequency} Expected Frequency in [1.0, 1.0]")
        u = numpy.array([0.0, 2.0 * math.cos(math.pi * frequency), -1.0])
        v = numpy.array([1.0, -numpy.exp(-1j * math.pi * frequency), 0.0])
        super().__init__(a=u, b=v)
''', '''        if not -1.0 <= frequency <= 1.0:
            raise ValueError(f"Frequency = {frequency} Expected Frequency in [1.0, 1.0]")
        if len(b) == 0 or not numpy.any(~numpy.isclose(b, 0.0)):
            raise ValueError(f"B = {b}")
        rotation = numpy.exp(-1j * math.pi * frequency)
        super().__init__(a=[0.0, 2.0 * rotation.real, -1.0], b=[1.0, -rotation, 0.0])
'''))
r("o12", "T04 G02 G03", (WT, '''            if rr > 1:
                for jj in range(0, cc):
                    for kk in range(0, 2):
                        fir_filter[kk].s[:] = 0.0
                        u = fir_filter[kk].filter(v[:rr, jj])
                        y[kk * (rr // 2) : (kk + 1) * (rr // 2), jj] = u[1::2]
''', '''            if rr > 1:
                for jj in range(0, cc):
                    halves = []
                    for f in fir_filter:
                        f.reset(0.0)
                        halves.append(f.filter(v[:rr, jj])[1::2])
                    y[:rr, jj] = numpy.concatenate(halves)
'''))
r("o13", "G01 F15 F12 F13 F14 F16 F17", (PR, '''        if order <= 0:
            raise ValueError(f"Order = {order} Expected Order in (0, inf)")
        super().__init__()
        self._order = order
        self._rate = rate
''', '''        super().__init__()
        self.rate = rate
        self.order = order
'''), (CF, '''        if (frequency < -1.0) or (frequency > 1.0):
            raise ValueError(f"Frequency = {frequency} Expected Frequency in [-1.0, 1.0]")
        if (rate < 0.0) or (rate > 1.0):
            raise ValueError(f"Rate = {rate} Expected Rate in [0.0, 1.0]")
        super().__init__(''', '''        if not (-1.0 <= frequency <= 1.0):
            raise ValueError(f"Frequency = {frequency} Expected Frequency in [-1.0, 1.0]")
        if not (0.0 <= rate <= 1.0):
            raise ValueError(f"Rate = {rate} Expected Rate in [0.0, 1.0]")
        super().__init__('''))
r("o14", "F09 F08 F02", (IIR, '''        if len(a) < len(b):
            a = numpy.concatenate((a, numpy.zeros(len(b) - len(a))))
        if len(b) < len(a):
            b = numpy.concatenate((b, numpy.zeros(len(a) - len(b))))
''', '''        length = max(a.size, b.size) if isinstance(b, numpy.ndarray) else max(len(a), len(b))
        a = numpy.append(a, numpy.zeros(length - len(a)))
        b = numpy.append(b, numpy.zeros(length - len(b)))
'''))


def one(x):
    name, checks, edits = x
    d = tempfile.mkdtemp(prefix="ref.", dir="/tmp")
    out = []
    try:
        shutil.copytree("/repo/diamondback", d + "/diamondback", ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copytree("/repo/tests", d + "/tests", ignore=shutil.ignore_patterns("__pycache__"))
        for f, old, new in edits:
            p = d + "/diamondback/" + f
            s = open(p).read()
            if s.count(old) < 1:
                return [(name, "-", "EDIT NOT FOUND " + f + ": " + old[:60])]
            open(p, "w").write(s.replace(old, new, 1))
        t = subprocess.run(["/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--deselect", "tests/unit/commons/test_rest_client.py::TestRestClient::test_init", "tests"], cwd=d, capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1"))
        if t.returncode:
            return [(name, "-", "TESTS FAIL " + t.stdout[-700:])]
        for c in checks:
            if ONLY and c not in ONLY:
                continue
            s = time.time()
            p = subprocess.run(["python3-vt", "run.py", c], cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d), timeout=1800)
            open("/tmp/ref/%s_%s.log" % (name, c), "w").write(p.stdout + p.stderr)
            out.append((name, c, "rc %d %ds" % (p.returncode, time.time() - s) + ("" if not p.returncode else "  <<<<< " + (p.stdout + p.stderr).strip()[-300:])))
            print(*out[-1], flush=True)
    finally:
        shutil.rmtree(d)
    return out


if __name__ == "__main__":
    os.makedirs("/tmp/ref", exist_ok=True)
    ONLY = [a for a in sys.argv[1:] if a[0].isupper()]
    ids = [a for a in sys.argv[1:] if not a[0].isupper()]
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for ys in ex.map(one, [x for x in R if not ids or x[0] in ids]):
            for y in ys:
                if y[1] == "-":
                    print(*y, flush=True)
