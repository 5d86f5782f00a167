"""The planted bugs: one realistic change each, with a demonstration through the public interface."""
BUGS = []


def B(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


B("b01", "F01", [("filters/fir_filter.py", "            if len(self.s) > 1:\n                self.s[1:] = self.s[:-1]\n", "            if (len(self.s) > 1) and (x[ii] or self.s[0]):\n                self.s[1:] = self.s[:-1]\n")],
  '''import numpy
from diamondback import FirFilter
b = numpy.array([1.0, 2.0, 4.0, 8.0])
x = numpy.array([1.0, 0.0, 0.0, 0.0, 3.0, 0.0, 0.0, -1.0])
y = FirFilter(b=b).filter(x)
assert numpy.allclose(y, numpy.convolve(x, b)[:len(x)]), y
''', "two consecutive zero samples while an older sample is still in the state", "the state is not shifted when the new and the previous sample are zero")

B("b02", "F02", [("filters/iir_filter.py", "            if len(self.s) > 1:\n                self.s[0] += self.a.dot(self.s)\n", "            if (len(self.s) > 1) and self.a.any():\n                self.s[0] += self.a.dot(self.s)\n")],
  '''import numpy
from diamondback import IirFilter
y = IirFilter(a=[0.0, 0.0, 0.0], b=[1.0, 0.5, 0.25]).filter(numpy.array([1.0, 0.0, 0.0, 2.0]))
assert numpy.allclose(y, [1.0, 0.5, 0.25, 2.0]), y
''', "recursive coefficients that are all zero", "a filter without feedback forgets earlier samples")

B("b03", "F03", [("filters/iir_filter.py", "self.s[1:] = x * (1.0 - self.b[0]) / (self.a[1:] * self.b[0] + self.b[1:]).sum()", "self.s[1:] = x * (1.0 - self.b[0]) / (self.a[1:] * self.b[0] + self.b[1:]).real.sum()")],
  '''import numpy
from diamondback import IirFilter
a = numpy.array([0.0, 0.5 + 0.25j])
b = numpy.array([0.25 + 0.125j, 0.25 - 0.375j])
f = IirFilter(a=a, b=b)
f.reset(2.0)
y = f.filter(2.0 * numpy.ones(4))
assert numpy.allclose(y, 2.0), y
''', "complex coefficients of unity gain whose steady state is not real", "reset drops an imaginary part")

B("b04", "F04", [("filters/rank_filter.py", "            if len(self.s) > 1:\n                self.s[1:] = self.s[:-1]\n", "            if (len(self.s) > 1) and (ii + 1 < len(x)):\n                self.s[1:] = self.s[:-1]\n")],
  '''import numpy
from diamondback import RankFilter
x = numpy.array([3.0, -1.0, 4.0, 1.0, -5.0, 9.0, 2.0])
y = RankFilter(1, 2).filter(x)
f = RankFilter(1, 2)
z = numpy.concatenate((f.filter(x[:3]), f.filter(x[3:])))
assert numpy.allclose(y, z), (y, z)
''', "a signal filtered in two or more blocks", "the last sample of a block is forgotten")

B("b05", "F05", [("filters/fir_filter.py", "e = (2.0 ** (-0.5)) - (abs(numpy.polyval(v, x)) ** count)", "e = (2.0 ** (-0.5)) - (abs(numpy.polyval(v, x)) ** min(count, 2))")],
  '''import numpy
from diamondback import FirFilter
for count in (1, 2, 3):
    b = FirFilter("Kaiser", 0.3, 15, count).b
    m = abs(numpy.polyval(b, numpy.exp(1j * numpy.pi * 0.3))) ** count
    assert abs(m - 2.0 ** -0.5) < 1e-6, (count, m)
''', "a cascade of three or more", "the cutoff of a cascade of three or more is that of two")

B("b06", "F06", [("filters/iir_filter.py", "            b *= gain\n", ""), ("filters/iir_filter.py", "            if complement:\n                a *= numpy", "            b *= gain\n            if complement:\n                a *= numpy")],
  '''import numpy
from diamondback import IirFilter
f = IirFilter("Butterworth", 0.3, 3, 1, True, 2.5)
n = (-1.0) ** numpy.arange(4)
g = sum(f.b * n) / (1.0 - sum(f.a * n))
assert abs(g - 2.5) < 1e-6, g
''', "a complement design with a gain other than one", "the normalisation of a complement design cancels the requested gain")

B("b07", "F07", [("filters/iir_filter.py", "return p[numpy.argsort(abs(p))], z[numpy.argsort(abs(z))]", "return p[numpy.argsort(p)], z[numpy.argsort(abs(z))]")],
  '''import numpy
from diamondback import IirFilter
# poles 0.25, -0.5, 0.75
p = numpy.poly([0.25, -0.5, 0.75])
f = IirFilter(a=numpy.concatenate(([0.0], -p[1:])), b=[1.0, 0.5, 0.25, 0.125])
y = f.roots(1)[0]
assert numpy.allclose(y, [0.25, -0.5, 0.75]), y
''', "a pole with a negative real part and another one of different magnitude", "poles are ordered by their real part")

B("b08", "F10", [("filters/pid_filter.py", "if abs(self.s[1] + x[ii]) < self.limit:", "if abs(self.s[1]) < self.limit:")],
  '''import numpy
from diamondback import PidFilter
f = PidFilter(b=[0.0, 1.0, 0.0])
f.limit = 2.5
y = f.filter(numpy.array([1.0, 1.0, 4.0, 1.0]))
assert (abs(y) <= 2.5).all(), y
''', "a limit, and a sample that takes the integral from below to beyond it", "the integral exceeds its limit")

B("b09", "F11", [("filters/rank_filter.py", "self.s[numpy.argsort(abs(self.s))]", "self.s[numpy.argsort(self.s)]")],
  '''import numpy
from diamondback import RankFilter
y = RankFilter(2, 2).filter(numpy.array([1.0, -3.0, 2.0, 0.5]))
assert numpy.allclose(y, [1.0, -3.0, -3.0, -3.0]), y
''', "negative or complex samples", "samples are ranked by value instead of magnitude")

B("b10", "F12", [("filters/complex_exponential_filter.py", "phase -= numpy.sign(phase) * 2.0", "phase -= 2.0")],
  '''import numpy
from diamondback import ComplexExponentialFilter
f = ComplexExponentialFilter()
x = numpy.array([-0.5, -0.375, -0.25])
y = numpy.concatenate((f.filter(x), f.filter(x)))
v = numpy.exp(1j * numpy.pi * numpy.concatenate(([0.0], numpy.cumsum(numpy.concatenate((x, x)))[:-1])))
assert numpy.allclose(y, v) and abs(f.phase) <= 1.0, y
''', "a negative accumulated phase beyond one half turn at the end of a call", "the phase leaves its interval")

B("b11", "F14", [("filters/complex_frequency_filter.py", "            self.s[0] = x[ii]\n        return y, e, b", "            if x[ii]:\n                self.s[0] = x[ii]\n        return y, e, b")],
  '''import numpy
from diamondback import ComplexFrequencyFilter
d = numpy.array([1.0 + 0j, 1j, 0.0, 1.0, -1j, 1.0 + 1j])
f = ComplexFrequencyFilter(0.25, 0.5)
y, e, b = f.filter(d)
x = numpy.where(abs(d) > 0.0, d / numpy.where(abs(d) > 0.0, abs(d), 1.0), 0.0)
for n in range(1, len(d)):
    assert abs(e[n] - (x[n] - b[n] * x[n - 1])) < 1e-9, n
''', "a zero sample inside a signal", "the sample before a zero sample is used once more after it")

B("b12", "F15", [("filters/goertzel_filter.py", "                self.s[:] = 0.0\n", "                self.s[1:] = 0.0\n")],
  '''import numpy
from diamondback import GoertzelFilter
w = numpy.ones(4)
x = numpy.array([1.0, 2.0, -1.0, 3.0, 0.5, -2.0, 1.5, 4.0])
y = GoertzelFilter(w, 0.25).filter(x)
k = numpy.exp(-1j * numpy.pi * 0.25 * numpy.arange(4))
assert numpy.allclose(abs(y), [abs(sum(x[:4] * k)) * 0.5, abs(sum(x[4:] * k)) * 0.5]), y
''', "a second block", "a block depends on the last sample of the block before")

B("b13", "F16", [("filters/polynomial_rate_filter.py", "                index -= 1.0\n", "                index = numpy.fmod(index, 1.0)\n")],
  '''import numpy
from diamondback import PolynomialRateFilter
x = 3.0 * numpy.arange(12) - 4.0
y = PolynomialRateFilter(0.4, 2).filter(x)
assert len(y) == 5 and numpy.allclose(y, 3.0 * numpy.arange(len(y)) / 0.4 - 4.0), y
''', "order two or more and a rate below one", "samples between two output instants are not skipped")

B("b14", "F17", [("filters/polyphase_rate_filter.py", "kk = min(int(numpy.round(self._index)), rr - 1)", "kk = min(int(self._index), rr - 1)")],
  '''import numpy
from diamondback import PolyphaseRateFilter
rate = 1.7
f = PolyphaseRateFilter(rate)
b = f.b
x = numpy.sin(numpy.arange(40) * 0.4)
y = f.filter(x)
rr, cc = b.shape
s, i, ii = numpy.zeros(cc), 0.0, 0
for v in y:
    s[0] = x[ii]
    k = min(int(round(i)), rr - 1)
    assert abs(v - b[k].dot(s)) < 1e-9
    i += rr / rate
    while i >= rr and ii + 1 < len(x):
        s[0] = x[ii]
        s[1:] = s[:-1].copy()
        i -= rr
        ii += 1
''', "a rate at which phases fall between rows of the bank", "the row below is used instead of the nearest one")

B("b15", "T02", [("transforms/fourier_transform.py", "y = numpy.concatenate((u[len(u) // 2 :], u[: len(u) // 2]))", "y = numpy.concatenate((u[(len(u) + 1) // 2 :], u[: (len(u) + 1) // 2]))")],
  '''import numpy
from diamondback import FourierTransform
x, b = numpy.array([1.0, -2.0, 4.0, 0.5, 3.0]), numpy.ones(5)
y, _ = FourierTransform.transform(x, b)
z, _ = FourierTransform.transform(y, b, True)
assert numpy.allclose(z, x), z
''', "an odd length", "an inverse transform of an odd length does not undo the forward one")

B("b16", "T03", [("transforms/psd_transform.py", "range(0, len(x) - len(b) + 1, index)", "range(0, max(len(x) - len(b), 1), index)")],
  '''import numpy
from diamondback import PsdTransform
x = numpy.array([1.0, -2.0, 4.0, 0.5, 3.0, -1.0, 2.0, 2.5])
y, _ = PsdTransform.transform(x, numpy.ones(4), 2, True)
assert y.shape == (3, 2), y.shape
''', "a signal whose last window ends exactly at its end", "the last window position that fits is left out")

B("b17", "T04", [("transforms/wavelet_transform.py", "                        u[::2] = y[kk * (rr // 2) : (kk + 1) * (rr // 2), jj]\n                        fir_filter[kk].s[:] = 0.0\n", "                        u[::2] = y[kk * (rr // 2) : (kk + 1) * (rr // 2), jj]\n                        if not jj:\n                            fir_filter[kk].s[:] = 0.0\n")],
  '''import numpy
from diamondback import WaveletTransform
w = WaveletTransform("Daubechies", 3)
n = 2 * 3 - 2
x = numpy.arange(64.0).reshape(16, 4) ** 2 % 7.0
y = w.transform(w.transform(x, 1), 1, True)
y0 = numpy.array([w.transform(w.transform(numpy.array([[t] for t in c]), 1), 1, True)[:, 0] for c in x.T]).T
z = w.transform(y0 * 0.0 + x, 1)
v = w.transform(z, 1, True)
# each column alone and all together agree up to the horizontal step, which is linear and acts on rows
r = numpy.array([w.transform(w.transform(numpy.array([t]), 1), 1, True)[0] for t in y0])
assert numpy.allclose(v, r), abs(v - r).max()
''', "a two-dimensional signal with several columns and a wavelet longer than Haar", "a column depends on the column before it")

B("b18", "T05", [("transforms/z_transform.py", "z = (1.0 + z / (2.0 * t)) / (1.0 - z / (2.0 * t))", "z = (1.0 + z / (2.0 * t)) / (1.0 - z.real / (2.0 * t))")],
  '''import numpy
from diamondback import ZTransform
f = 0.1
u, v = numpy.array([1.0, 3.0, 4.0, 2.0]), numpy.poly([1.0j, -1.0j]).real
a, b = ZTransform.transform(u, v, f, True)
h = 0.5 * numpy.pi * f
z = numpy.array([(1.0 + h * 1j) / (1.0 - h * 1j), (1.0 - h * 1j) / (1.0 + h * 1j)])
for t in z:
    assert abs(numpy.polyval(b, t)) < 1e-9, (t, abs(numpy.polyval(b, t)))
''', "the bilinear transform and a numerator with complex roots", "complex zeros are mapped to the wrong place")

B("b19", "M01", [("models/diversity_model.py", "** (1.0 / len(x))", "** 0.5")],
  '''import numpy
from diamondback import DiversityModel
m = DiversityModel("Geometric", 1)
m.fit(numpy.array([[0.0, 0.0, 0.0], [1.0, 1.0, 1.0]]))
y = m.fit(numpy.array([[4.0, 4.0, 4.0]]))
assert numpy.isclose(y[0], 4.0), y
''', "the geometric style with other than two columns", "the geometric mean distance takes a square root whatever the number of columns")

B("b20", "M02", [("models/gaussian_model.py", "        self._model = []\n        self._shape = x[0].shape\n", "        self._shape = x[0].shape\n")],
  '''import numpy
from diamondback import GaussianModel
m = GaussianModel()
m.fit(numpy.array([[0.0], [1.0], [8.0], [9.0]]), numpy.array([0, 0, 1, 1]))
m.fit(numpy.array([[0.0], [1.0], [8.0], [9.0]]), numpy.array([1, 1, 0, 0]))
v = m.predict(numpy.array([[0.5], [8.5]]))
assert v.shape == (2, 2) and v[0, 0] == 1 and v[1, 0] == 0, v
''', "fitting an instance a second time", "what an earlier fit learned is kept")

B("b21", "M03", [("models/gaussian_mixture_model.py", "v[jj, ii] += w * numpy.exp(-0.5 * max((x[jj] - u) @ i @ (x[jj] - u).T, 0.0))", "v[jj, ii] = max(v[jj, ii], w * numpy.exp(-0.5 * max((x[jj] - u) @ i @ (x[jj] - u).T, 0.0)))")],
  '''import numpy
from diamondback import GaussianMixtureModel
g = numpy.random.RandomState(3)
bad = 0
x = numpy.concatenate((g.randn(60, 1) * 0.5, g.randn(60, 1) * 3.0 + 4.0, g.randn(60, 1) * 0.3 + 8.0))
y = numpy.repeat([5, 2, 9], 60)
m = GaussianMixtureModel(3, 20)
m.fit(x, y)
q = numpy.linspace(-6.0, 14.0, 400).reshape(-1, 1)
v = m.predict(q)
for a, r in zip(q, v):
    s = dict()
    for l, k in zip(m._label, m._model):
        s[l] = sum(k.weights_[j] * numpy.exp(-0.5 * (a - k.means_[j]) @ k.precisions_[j] @ (a - k.means_[j])) for j in range(3))
    o = [s[t] for t in r]
    bad += any(p < n - 1e-9 for p, n in zip(o, o[1:]))
assert not bad, bad
''', "two or more mixture components that contribute to one score", "the score is that of the best component instead of the weighted sum")

B("b22", "F08", [("filters/derivative_filter.py", "numpy.array([-1.0, 8.0, 2.0, -24.0, 0.0, 24.0, -2.0, -8.0, 1.0]) * (1.0 / 48.0)", "numpy.array([-1.0, 8.0, -2.0, -16.0, 0.0, 16.0, 2.0, -8.0, 1.0]) * (1.0 / 48.0)")],
  '''import numpy
from diamondback import DerivativeFilter
n = numpy.arange(24.0)
y = DerivativeFilter(3, 8).filter(n ** 3)
assert numpy.allclose(y[8:], 6.0), y
''', "the third derivative of order 8", "the table of the third derivative of order 8 no longer gives the third derivative of a cubic")

B("b23", "F09", [("filters/integral_filter.py", "3: numpy.array([1.0, 3.0, 3.0, 1.0]) * (1.0 / 8.0)", "3: numpy.array([1.0, 3.0, 3.0]) * (1.0 / 7.0)")],
  '''import numpy
from diamondback import IntegralFilter
f = IntegralFilter(3)
assert len(f.b) == 4 and numpy.allclose(f.b, f.b[::-1]), f.b
y = f.filter(numpy.arange(8.0))
y, t = y[1:] - y[:-1], numpy.arange(1.0, 8.0)
assert numpy.allclose(y[3:], t[3:] - 1.5), y
''', "order 3 and a signal that is not constant", "the last coefficient of order 3 is lost, so integrals of ramps are off")

B("b24", "F13", [("filters/complex_bandpass_filter.py", "x = self._filter.filter(numpy.ones(len(d)) * self.frequency)", "x = self._filter.filter(numpy.ones(len(d)) * abs(self.frequency))")],
  '''import numpy
from diamondback import ComplexBandpassFilter
f = ComplexBandpassFilter(-0.2, 0.1)
x = numpy.exp(-1j * numpy.pi * 0.2 * numpy.arange(400))
y, e, b = f.filter(x)
assert abs(e[-1]) < 1.0e-3, abs(e[-1])
''', "a negative frequency", "negative frequencies are tracked as positive ones")

B("b25", "F18", [("filters/window_filter.py", "b = get_window(window, order + 1, False)", "b = get_window(window, order + 1, isinstance(window, tuple))")],
  '''import numpy
from diamondback import WindowFilter
for s in ("Hann", "Kaiser"):
    b = WindowFilter(s, 8).b
    assert numpy.allclose(b, b[::-1]), (s, b)
''', "the Kaiser style", "Kaiser windows are periodic instead of symmetric")

B("b26", "T01", [("transforms/complex_transform.py", "            y = v[0, :] + 1j * v[1, :]\n", "            y = x[0, :] + 1j * v[1, :]\n")],
  '''import numpy
from diamondback import ComplexTransform
x = numpy.array([[1.0, 2.0], [0.5, -1.0], [-1.5, -1.0]])
y, z = ComplexTransform.transform(x), ComplexTransform.transform(x + 1.0)
assert numpy.allclose(y, z), (y, z)
''', "three phases with a component common to all", "the first phase is taken as it is, which holds only when the phases sum to zero")

B("b27", "C01", [("commons/serial.py", "return hashlib.sha3_256(bytes(x, encoding)).hexdigest()", "return hashlib.sha3_256(bytes(x.strip(), encoding)).hexdigest()")],
  '''import hashlib
from diamondback import Serial
for x in ("abc", " abc", "abc\\n"):
    assert Serial.code(x) == hashlib.sha3_256(x.encode("utf-8")).hexdigest(), x
''', "a string with white space at an end", "different strings have the same code")

B("b28", "C01", [("commons/serial.py", '''    @staticmethod
    def code(''', '''    _cache: dict = dict()

    @staticmethod
    def code('''), ("commons/serial.py", '''        with io.BytesIO() as fio:
            pickle.dump(x, fio)
            y = str(base64.b85encode(gzip.compress(fio.getvalue()) if compress else fio.getvalue()), encoding)
        return y''', '''        key = (id(x), compress, encoding)
        if (key in Serial._cache) and (Serial._cache[key][0] is x):
            return Serial._cache[key][1]
        with io.BytesIO() as fio:
            pickle.dump(x, fio)
            y = str(base64.b85encode(gzip.compress(fio.getvalue()) if compress else fio.getvalue()), encoding)
        Serial._cache[key] = (x, y)
        return y''')],
  '''from diamondback import Serial
x = [1.0, 2.0]
assert Serial.decode(Serial.encode(x)) == x
x.append(3.0)
y = Serial.decode(Serial.encode(x))
assert y == x, y
''', "encoding an instance again after it changed", "encodings are cached by identity, so a changed instance is encoded as it was")

B("b29", "C02", [("commons/rest_client.py", 'api = api.strip("/")', 'api = api.removeprefix("/").removesuffix("/")')],
  '''from unittest import mock
from diamondback import RestClient
with mock.patch("requests.request") as r:
    RestClient().request("get", "//a/b/")
    u = r.call_args.kwargs["url"]
assert u == "http://127.0.0.1:8080/a/b", u
''', "an API with two or more slashes at an end", "only one slash is removed at each end of the API")

B("b30", "C02", [("commons/rest_client.py", '''        try:
            requests.request(method="head"''', '''        if getattr(self, "_alive", None) == self.url:
            return True
        try:
            requests.request(method="head"'''), ("commons/rest_client.py", "            value = True\n", "            value, self._alive = True, self.url\n")],
  '''from unittest import mock
import requests
from diamondback import RestClient
c = RestClient()
with mock.patch("requests.request"):
    assert c.live
with mock.patch("requests.request", side_effect=requests.ConnectionError()):
    assert not c.live
''', "a service that was live once and is not any more", "live is remembered for a URL")

B("b31", "C03", [("commons/log.py", '''                stream,
                level=0,''', '''                stream,
                level=Log._level.no,''')],
  '''import io
from diamondback import Log
s = io.StringIO()
Log.level("Error")
Log.stream(s)
Log.level("Debug")
Log.write("Info", "entry")
assert s.getvalue().count("entry") == 1, s.getvalue()
''', "a stream assigned at a higher level, and the level lowered afterwards", "the handler keeps the level at which the stream was assigned")

B("b32", "C04", [("commons/log.py", '''        with Log._rlock:
            if not Log._identity:
                Log.stream(sys.stdout)
            try:
                v =''', '''        if not Log._identity:
            Log.stream(sys.stdout)
        with Log._rlock:
            try:
                v =''')],
  '''import io
import threading
import diamondback.commons.log as module
from diamondback import Log
a = io.StringIO()
real = Log.stream
main = threading.current_thread()


def stream(x):
    if (threading.current_thread() is main) and (x is not a):
        t = threading.Thread(target=lambda: real(a))
        t.start()
        t.join(2.0)
    real(x)


Log.stream = stream
Log.write("Info", "first")
for t in threading.enumerate():
    if t is not main:
        t.join(5.0)
Log.stream = real
Log.write("Info", "second")
assert "second" in a.getvalue(), "the assigned stream was replaced"
''', "a stream assigned by one thread while another writes the first entry", "the lazily assigned standard output replaces a stream assigned meanwhile")

B("b33", "C04", [("commons/log.py", '''                        entry += f" @ File = {pathlib.Path(info.tb_frame.f_code.co_filename).parts[-1]} Line = {info.tb_lineno}"
                        info = info.tb_next
                logger.log(v.name, entry)''', '''                        entry += f" @ File = {pathlib.Path(info.tb_frame.f_code.co_filename).parts[-1]} Line = {info.tb_lineno}"
                        info = info.tb_next
            enabled = v.no >= Log._level.no
        if enabled:
            logger.log(v.name, entry)''')],
  '''import io
import threading
import diamondback.commons.log as module
from diamondback import Log
a, b = io.StringIO(), io.StringIO()
Log.stream(a)
real = module.logger


def other():
    Log.stream(b)
    Log.level("Critical")


class Logger:
    def __getattr__(self, k):
        return getattr(real, k)

    def log(self, *x):
        t = threading.Thread(target=other)
        t.start()
        t.join(2.0)
        real.log(*x)


module.logger = Logger()
Log.write("Info", "entry")
for t in threading.enumerate():
    if t is not threading.current_thread():
        t.join(5.0)
assert "entry" in a.getvalue() and "entry" not in b.getvalue(), (a.getvalue(), b.getvalue())
''', "a stream and a level assigned by another thread between the decision to write and the writing", "an entry is decided at one level and written to a stream that was assigned with a higher one")

B("b34", "G01", [("filters/complex_bandpass_filter.py", '''    def rate(self, rate: float):
        if (rate < 0.0) or (rate > 1.0):
            raise ValueError(f"Rate = {rate} Expected Rate in [0.0, 1.0]")
        self._rate = rate
''', '''    def rate(self, rate: float):
        self._rate = rate
        if (rate < 0.0) or (rate > 1.0):
            raise ValueError(f"Rate = {rate} Expected Rate in [0.0, 1.0]")
''')],
  '''from diamondback import ComplexBandpassFilter
f = ComplexBandpassFilter(0.1, 0.5)
try:
    f.rate = 2.0
    raise SystemExit(3)
except ValueError:
    pass
assert f.rate == 0.5, f.rate
''', "an assignment that is rejected", "a rejected rate is kept")

B("b35", "G02", [("filters/goertzel_filter.py", "self._w = numpy.array(b)", "self._w = numpy.asarray(b)")],
  '''import numpy
from diamondback import GoertzelFilter
b = numpy.ones(4)
f = GoertzelFilter(b, 0.5)
b[:] = 0.0
y = f.filter(numpy.array([1.0, 0.0, 0.0, 0.0]))
assert abs(y[0]) > 0.4, y
''', "the window array written to after the construction", "the filter keeps the array it was given")

B("b36", "G03", [("filters/goertzel_filter.py", '''            x = numpy.array(list(x))
        if not len(x):''', '''            x = numpy.fromiter(x, float)
        if not len(x):''')],
  '''import numpy
from diamondback import GoertzelFilter
x = [1.0 + 1.0j, 2.0, 1.0j, -1.0]
y = GoertzelFilter([1.0, 1.0, 1.0, 1.0], 0.5).filter(x)
z = GoertzelFilter([1.0, 1.0, 1.0, 1.0], 0.5).filter(numpy.array(x))
assert numpy.allclose(y, z), (y, z)
''', "a complex signal given as a list", "lists of complex numbers are rejected")

B("b37", "M01", [("models/diversity_model.py", "            if numpy.isclose(self.s[ii, 0], numpy.finfo(float).max):\n                break\n            cc += 1\n", "            if numpy.isclose(self.s[ii, 0], numpy.finfo(float).max) or (ii and (self.s[ii] == self.s[ii - 1]).all()):\n                break\n            cc += 1\n")],
  '''import numpy
from diamondback import DiversityModel
m = DiversityModel("Manhattan", 1)
m.fit(numpy.array([[1.0]]))
m.fit(numpy.array([[1.0]]))
y = m.fit(numpy.array([[4.0]]))
assert numpy.isclose(y[0], 3.0), (y, m.s)
''', "two equal observations, kept across calls", "a repeated observation is taken for an empty place in the next call")

B("b38", "F05", [("filters/fir_filter.py", "(abs(numpy.polyval(v, x)) ** count)", "(abs(numpy.polyval(v, x)) ** (1 if complement and count > 2 else count))")],
  '''import numpy
from diamondback import FirFilter
for count in (2, 3, 4):
    b = FirFilter("Hann", 0.4, 12, count, True).b
    m = abs(numpy.polyval(b, numpy.exp(1j * numpy.pi * 0.4))) ** count
    assert abs(m - 2.0 ** -0.5) < 1e-6, (count, m)
''', "a complement design for a cascade of three or more", "the cascade is designed as a single filter")

B("b39", "F06", [("filters/iir_filter.py", "((2.0 * ii) - 1.0) * a)", "min((2.0 * ii) - 1.0, 9.0) * a)")],
  '''import numpy
from unittest import mock
from diamondback import IirFilter
import diamondback.filters.iir_filter as m
seen = []
t = m.ZTransform.transform
class Z:
    @staticmethod
    def transform(u, v, frequency, bilinear=True):
        seen.append(numpy.array(u))
        return t(u, v, frequency, bilinear)
with mock.patch.object(m, "ZTransform", Z):
    IirFilter("Bessel", 0.1, 7)
u = seen[0] / seen[0][0]
w = numpy.array([1.0, 28.0, 378.0, 3150.0, 17325.0, 62370.0, 135135.0, 135135.0])
assert numpy.allclose(u, w * (u[-1] / w[-1]) ** (numpy.arange(8) / 7.0)), u
''', "a Bessel design of order 6 or more", "the recursion of the Bessel polynomials stops growing at order 5")

B("b40", "F07", [("filters/iir_filter.py", "math.pi * f)[1] ** count", "math.pi * f)[1] ** min(count, 4)")],
  '''import numpy
from diamondback import IirFilter
g = IirFilter(a=[0.0, 0.5], b=[0.25, 0.25])
y, f = g.response(16, 1)
z, _ = g.response(16, 6)
assert numpy.allclose(y ** 6, z), z
''', "the response of a cascade of five or more", "the cascade counts four filters at most")

B("b42", "T02", [("transforms/fourier_transform.py", "u = numpy.array(x[: len(b)])", "u = numpy.array(x[: len(b)] if len(b) > 1 else x[-1:])")],
  '''import numpy
from diamondback import FourierTransform
y, f = FourierTransform.transform(numpy.array([1.0, 2.0, 3.0]), numpy.array([2.0]))
assert numpy.allclose(y, [2.0]), y
''', "a window of one value and a longer signal", "the last value is transformed in place of the first")

B("b43", "T03", [("transforms/psd_transform.py", "numpy.sum(y, axis=0) / len(y)", "(numpy.sum(y, axis=0) / len(y) if len(y) < 4 else numpy.median(y, axis=0))")],
  '''import numpy
from diamondback import PsdTransform
x = numpy.cumsum(numpy.arange(20.0) % 7.0)
b = numpy.ones(4)
y, f = PsdTransform.transform(x, b, 3)
s, _ = PsdTransform.transform(x, b, 3, True)
assert len(s) > 3 and numpy.allclose(y, s.mean(0)), y
''', "four or more window positions", "the median over the rows is returned where there are many")

B("b44", "M01", [("models/diversity_model.py", "for vv in range(uu + 1, cc):", "for vv in range(uu + 1, min(cc, uu + 9)):")],
  '''import numpy
from diamondback import DiversityModel
m = DiversityModel("Euclidean", 11)
m.fit(numpy.array([[0.0], [10.0], [20.0], [30.0], [40.0], [50.0], [60.0], [70.0], [80.0], [90.0], [100.0], [0.5]]))
y = m.fit(numpy.array([[120.0]]))
s = m.s[:, 0]
d = min(abs(s[i] - s[j]) for i in range(12) for j in range(i))
assert numpy.isclose(y[0], d), (y, s)
''', "eleven or more members of which the first and the last are the closest", "only pairs of members stored near each other are compared")

B("b45", "M02", [("models/gaussian_model.py", "/ z.shape[0]) + r)", "/ z.shape[0]) + (r if z.shape[0] <= 2 * z.shape[1] else 0.5 * r))")],
  '''import numpy
from diamondback import GaussianModel
x = numpy.array([[0.0, 0.0], [0.1, 0.0], [0.0, 0.1], [0.1, 0.1], [0.05, 0.05], [3.0, 3.0], [3.1, 3.0], [3.0, 3.1]])
y = numpy.array([0, 0, 0, 0, 0, 1, 1, 1])
m = GaussianModel(1.0)
m.fit(x, y)
q = numpy.array([[1.4, 1.4]])
assert m.predict(q)[0][0] == 0, m.predict(q)
''', "classes of more than twice as many samples as columns beside smaller ones", "the regularisation of large classes is halved")

B("b46", "M03", [("models/gaussian_mixture_model.py", "for kk in range(0, self.order):", "for kk in range(0, min(self.order, 3)):")],
  '''import numpy
import sklearn.mixture
from diamondback import GaussianMixtureModel
numpy.random.seed(1)
x = numpy.array([[0.0], [10.0], [20.0], [30.0], [5.0], [15.0], [25.0], [35.0]]).repeat(6, 0) + numpy.tile([[-0.1], [0.0], [0.1]], (16, 1))
y = numpy.array([0] * 24 + [1] * 24)
m = GaussianMixtureModel(4, 100, 0.1)
m.fit(x, y)
q = numpy.array([[0.0], [10.0], [20.0], [30.0], [5.0], [15.0], [25.0], [35.0]])
v = m.predict(q)
assert list(v[:, 0]) == [0, 0, 0, 0, 1, 1, 1, 1], v
''', "mixtures of four or more components and a query near the last one", "only the first three components count in predictions")

B("b47", "C03", [("commons/log.py", "                    while info:", "                    while info and len(entry) < 400:")],
  '''import io
from diamondback import Log
def f(k):
    if not k:
        raise ValueError("deep")
    f(k - 1)
s = io.StringIO()
Log.stream(s)
try:
    f(40)
except ValueError as ex:
    Log.write("Error", ex)
assert s.getvalue().count("Line = ") == 42, s.getvalue()
''', "an exception from a deep stack", "the traceback ends once the line is long")

B("b48", "C03", [("commons/log.py", "if v.no >= Log._level.no:", "if (v.no >= Log._level.no) and (str(entry).strip() or isinstance(entry, Exception)):")],
  '''import io
from diamondback import Log
s = io.StringIO()
Log.stream(s)
Log.write("Error", "")
assert s.getvalue().count("ERROR") == 1, s.getvalue()
''', "an empty entry", "empty entries are not written")

B("b49", "F14", [("filters/complex_frequency_filter.py", "        self.b[0] = numpy.exp(1j * math.pi * frequency)\n", "        self.b[0] *= numpy.exp(1j * math.pi * (frequency - self._frequency))\n")],
  '''import numpy
from diamondback import ComplexFrequencyFilter
f = ComplexFrequencyFilter(0.1, 0.5)
f.filter(numpy.exp(1j * numpy.pi * 0.3 * numpy.arange(20)))
f.frequency = -0.2
y, e, b = f.filter(numpy.array([1.0 + 1.0j]))
assert numpy.isclose(y[0], -0.2), y
''', "a frequency assigned after the filter has adapted", "the assigned frequency is added to the adaptation so far")

B("b50", "F15", [("filters/goertzel_filter.py", "if self._index >= len(self._w):", "if (self._index >= len(self._w)) or ((ii + 1 == len(x)) and (self._index > 7)):")],
  '''import numpy
from diamondback import GoertzelFilter
b = numpy.ones(12)
x = numpy.cos(numpy.arange(33.0))
assert len(GoertzelFilter(b, 0.25).filter(x)) == 2
''', "a window of more than eight samples and a signal that ends late in a block", "an incomplete last block yields an output")

B("b51", "F03", [("filters/fir_filter.py", "        self.s[:] = x\n", "        if x:\n            self.s[:] = x\n")],
  '''import numpy
from diamondback import FirFilter
f = FirFilter(b=[1.0, 2.0, 3.0])
f.filter(numpy.array([1.0, 2.0, 3.0]))
f.reset(0.0)
y = f.filter(numpy.zeros(3))
assert not y.any(), y
''', "a reset to zero after something was filtered", "a reset to zero does nothing")

B("b52", "F16", [("filters/polynomial_rate_filter.py", "y = y[: min(jj, len(y))]", "y = y[: min(jj, len(y), (4 * cc) + 1)]")],
  '''import numpy
from diamondback import PolynomialRateFilter
for order in (1, 2, 3):
    y = PolynomialRateFilter(5.5, order).filter(numpy.arange(8.0))
    assert len(y) == 44, len(y)
''', "a rate above four", "the output is cut at four times the length")

B("b54", "C02", [("commons/rest_client.py", "if (data) and (json):", "if (data is not None) and (json is not None):")],
  '''import io
from unittest import mock
import requests
from diamondback import RestClient
r = requests.Response()
r.status_code = 200
r.raw = io.BytesIO()
with mock.patch("requests.request", return_value=r) as q:
    RestClient().request("post", "x", data="", json={"a": 1})
assert q.call_count == 1
''', "an empty body beside JSON", "an empty body is taken for a second one")
