From 2c7e15654caef703bdb068f1d6636f91bec2f29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 01/21] fix: keep fractional and imaginary parts in FIR, IIR,
 PID and rank filters

Integer coefficients gave an integer state and reference signal, and real
coefficients a real state and reference signal, so a fractional or complex
incident signal was silently truncated, and a complex reset failed.
---
 diamondback/filters/fir_filter.py  | 24 ++++++++++++++++++++++--
 diamondback/filters/iir_filter.py  |  3 ++-
 diamondback/filters/pid_filter.py  |  2 +-
 diamondback/filters/rank_filter.py |  2 +-
 4 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/diamondback/filters/fir_filter.py b/diamondback/filters/fir_filter.py
index f860ccb..4f71486 100644
--- a/diamondback/filters/fir_filter.py
+++ b/diamondback/filters/fir_filter.py
@@ -207,8 +207,27 @@ class FirFilter(object):
             b = numpy.concatenate((b, numpy.zeros(len(s) - len(b))))
         if len(s) < len(b):
             s = numpy.concatenate((s, numpy.zeros(len(b) - len(s))))
+        if not issubclass(b.dtype.type, numpy.inexact):
+            b = b.astype(float)
         super().__init__()
-        self._b, self._s = numpy.array(b), numpy.array(s, type(b[0]))
+        self._b, self._s = numpy.array(b), numpy.array(s, numpy.result_type(b, s))
+
+    def _promote(self, *x) -> numpy.dtype:
+        """Promotes a state to a type common to coefficients and a signal.
+
+        Parameters
+        ----------
+        x: numpy.ndarray | complex | float - coefficient or signal
+
+        Returns
+        -------
+        dtype: numpy.dtype
+        """
+        s = numpy.asarray(self.s)
+        dtype = numpy.result_type(self.b, s, *x)
+        if (s is not self.s) or (s.dtype != dtype):
+            self.s = numpy.array(s, dtype)
+        return dtype
 
     def delay(self, length: int = 8192, count: int = 1) -> tuple[numpy.ndarray, numpy.ndarray]:
         """Estimates group delay and produces a reference signal.
@@ -255,7 +274,7 @@ class FirFilter(object):
             x = numpy.array(list(x))
         if not len(x):
             raise ValueError(f"X = {x}")
-        y = numpy.zeros(len(x), type(self.b[0]))
+        y = numpy.zeros(len(x), self._promote(x))
         for ii in range(0, len(x)):
             if len(self.s) > 1:
                 self.s[1:] = self.s[:-1]
@@ -274,6 +293,7 @@ class FirFilter(object):
 
         if not numpy.isscalar(x):
             raise ValueError(f"X = {x}")
+        self._promote(x)
         self.s[:] = x
 
     def response(self, length=8192, count=1) -> tuple[numpy.ndarray, numpy.ndarray]:
diff --git a/diamondback/filters/iir_filter.py b/diamondback/filters/iir_filter.py
index a9eaedf..f4286ae 100644
--- a/diamondback/filters/iir_filter.py
+++ b/diamondback/filters/iir_filter.py
@@ -301,7 +301,7 @@ class IirFilter(FirFilter):
             x = numpy.array(list(x))
         if not len(x):
             raise ValueError(f"X = {x}")
-        y = numpy.zeros(len(x), type(self.b[0]))
+        y = numpy.zeros(len(x), self._promote(self.a, x))
         for ii in range(0, len(x)):
             if len(self.s) > 1:
                 self.s[0] += self.a.dot(self.s)
@@ -322,6 +322,7 @@ class IirFilter(FirFilter):
 
         if not numpy.isscalar(x):
             raise ValueError(f"X = {x}")
+        self._promote(self.a, x)
         if len(self.s) > 1:
             self.s[1:] = x * (1.0 - self.b[0]) / (self.a[1:] * self.b[0] + self.b[1:]).sum()
         self.s[0] = x
diff --git a/diamondback/filters/pid_filter.py b/diamondback/filters/pid_filter.py
index bb2f596..bda2de7 100644
--- a/diamondback/filters/pid_filter.py
+++ b/diamondback/filters/pid_filter.py
@@ -79,7 +79,7 @@ class PidFilter(FirFilter):
             x = numpy.array(list(x))
         if not len(x):
             raise ValueError(f"X = {x}")
-        y = numpy.zeros(len(x), type(self.b[0]))
+        y = numpy.zeros(len(x), self._promote(x))
         for ii in range(0, len(x)):
             self.s[2] = x[ii] - self.s[0]
             if abs(self.s[1] + x[ii]) < self.limit:
diff --git a/diamondback/filters/rank_filter.py b/diamondback/filters/rank_filter.py
index b24f8ef..4f0380d 100644
--- a/diamondback/filters/rank_filter.py
+++ b/diamondback/filters/rank_filter.py
@@ -82,7 +82,7 @@ class RankFilter(FirFilter):
             x = numpy.array(list(x))
         if not len(x):
             raise ValueError(f"X = {x}")
-        y = numpy.zeros(len(x), type(x[0]))
+        y = numpy.zeros(len(x), self._promote(x))
         for ii in range(0, len(x)):
             self.s[0] = x[ii]
             y[ii] = self.s[numpy.argsort(abs(self.s))][self.index]
-- 
2.43.0


From 337002f081b9578935f342e499b5d07d0f0f30dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 02/21] fix: extend recursive coefficients to an explicit
 longer state in IirFilter

---
 diamondback/filters/iir_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/filters/iir_filter.py b/diamondback/filters/iir_filter.py
index f4286ae..1b0f2d7 100644
--- a/diamondback/filters/iir_filter.py
+++ b/diamondback/filters/iir_filter.py
@@ -202,7 +202,7 @@ class IirFilter(FirFilter):
         if a[0] != 0.0:
             raise ValueError(f"A = {a}")
         super().__init__(b=b, s=s)
-        self._a = numpy.array(a)
+        self._a = numpy.concatenate((a, numpy.zeros(len(self.b) - len(a))))
 
     @staticmethod
     def _evaluate(style: str, frequency: float, order: int) -> tuple[numpy.ndarray, numpy.ndarray]:
-- 
2.43.0


From 3bdf8862d503a19704b8ab028c30a309901f9748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 03/21] fix: start ComplexFrequencyFilter at the frequency
 given to the constructor

---
 diamondback/filters/complex_frequency_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/filters/complex_frequency_filter.py b/diamondback/filters/complex_frequency_filter.py
index 21cdd12..254e5d6 100644
--- a/diamondback/filters/complex_frequency_filter.py
+++ b/diamondback/filters/complex_frequency_filter.py
@@ -94,7 +94,7 @@ class ComplexFrequencyFilter(FirFilter):
             raise ValueError(f"Frequency = {frequency} Expected Frequency in [-1.0, 1.0]")
         if (rate < 0.0) or (rate > 1.0):
             raise ValueError(f"Rate = {rate} Expected Rate in [0.0, 1.0]")
-        super().__init__(b=numpy.ones(1, complex), s=numpy.ones(1, complex))
+        super().__init__(b=numpy.array([numpy.exp(1j * math.pi * frequency)]), s=numpy.ones(1, complex))
         self._frequency = frequency
         self._rate = rate
 
-- 
2.43.0


From e47f7367ee586cf73f21f53968f5303ebf1d3d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 04/21] fix: apply an assigned frequency in GoertzelFilter

---
 diamondback/filters/goertzel_filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/diamondback/filters/goertzel_filter.py b/diamondback/filters/goertzel_filter.py
index e942309..cf04372 100644
--- a/diamondback/filters/goertzel_filter.py
+++ b/diamondback/filters/goertzel_filter.py
@@ -71,6 +71,8 @@ class GoertzelFilter(IirFilter):
     def frequency(self, frequency: float):
         if (frequency < -1.0) or (frequency > 1.0):
             raise ValueError(f"Frequency = {frequency} Expected Frequency in [1.0, 1.0]")
+        self.a[1] = 2.0 * math.cos(math.pi * frequency)
+        self.b[1] = -numpy.exp(-1j * math.pi * frequency)
         self._frequency = frequency
 
     def __init__(self, b: list | numpy.ndarray, frequency: float) -> None:
-- 
2.43.0


From 88a68667ce50bdfd407346dfac5e80831c92adb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 05/21] fix: scale complex signals of any precision alike in
 GoertzelFilter

---
 diamondback/filters/goertzel_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/filters/goertzel_filter.py b/diamondback/filters/goertzel_filter.py
index cf04372..9155103 100644
--- a/diamondback/filters/goertzel_filter.py
+++ b/diamondback/filters/goertzel_filter.py
@@ -114,7 +114,7 @@ class GoertzelFilter(IirFilter):
         if not len(x):
             raise ValueError(f"X = {x}")
         y = numpy.zeros(int(numpy.ceil(len(x) / len(self._w))) + 1, complex)
-        u = (1.0 + int(not isinstance(x[0], complex))) / len(self._w)
+        u = (1.0 + int(not numpy.iscomplexobj(x))) / len(self._w)
         jj = 0
         for ii in range(0, len(x)):
             v = super().filter(u * self._w[self._index] * x[ii : ii + 1])
-- 
2.43.0


From 48c3a7746069f1320ee295bc1e4f724905849375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 06/21] fix: leave incident coefficients unchanged in
 ZTransform

Arrays passed by a caller were normalized in place, and integer arrays failed.
---
 diamondback/transforms/z_transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diamondback/transforms/z_transform.py b/diamondback/transforms/z_transform.py
index 7763cc0..70a1917 100644
--- a/diamondback/transforms/z_transform.py
+++ b/diamondback/transforms/z_transform.py
@@ -101,8 +101,8 @@ class ZTransform(object):
             u = numpy.delete(u, 0)
         while not v[0]:
             v = numpy.delete(v, 0)
-        v /= u[-1]
-        u /= u[-1]
+        v = v / u[-1]
+        u = u / u[-1]
         t = 1.0 / (math.pi * frequency)
         if bilinear:
             p = numpy.roots(u)
-- 
2.43.0


From e705dff0c7bce31f0e507f151218c88d2f7b0b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 07/21] fix: accept complex signals with zero imaginary parts
 in complex filters

---
 diamondback/filters/complex_bandpass_filter.py  | 2 +-
 diamondback/filters/complex_frequency_filter.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/diamondback/filters/complex_bandpass_filter.py b/diamondback/filters/complex_bandpass_filter.py
index e66838f..6154017 100644
--- a/diamondback/filters/complex_bandpass_filter.py
+++ b/diamondback/filters/complex_bandpass_filter.py
@@ -117,7 +117,7 @@ class ComplexBandpassFilter(FirFilter):
             d = numpy.array(list(d))
         if not len(d):
             raise ValueError(f"D = {d}")
-        if not numpy.iscomplex(d).any():
+        if not numpy.iscomplexobj(d):
             d = hilbert(d)
         x = self._filter.filter(numpy.ones(len(d)) * self.frequency)
         y, e, b = (
diff --git a/diamondback/filters/complex_frequency_filter.py b/diamondback/filters/complex_frequency_filter.py
index 254e5d6..96ed95a 100644
--- a/diamondback/filters/complex_frequency_filter.py
+++ b/diamondback/filters/complex_frequency_filter.py
@@ -120,7 +120,7 @@ class ComplexFrequencyFilter(FirFilter):
             d = numpy.array(list(d))
         if not len(d):
             raise ValueError(f"D = {d}")
-        if not numpy.iscomplex(d).any():
+        if not numpy.iscomplexobj(d):
             d = hilbert(d)
         x = abs(d)  # type: ignore
         x[numpy.isclose(x, 0.0)] = 1.0
-- 
2.43.0


From c7cdf81f39f52ccb237992334d34a85b30346d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 08/21] fix: replace only a zero end of a window in an inverse
 FourierTransform

---
 diamondback/transforms/fourier_transform.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/diamondback/transforms/fourier_transform.py b/diamondback/transforms/fourier_transform.py
index 146fce1..bfd1164 100644
--- a/diamondback/transforms/fourier_transform.py
+++ b/diamondback/transforms/fourier_transform.py
@@ -87,8 +87,10 @@ class FourierTransform(object):
         u = numpy.array(x[: len(b)])
         v = numpy.array(b)
         if inverse:
-            if (numpy.isclose(v[0], 0.0)) or (numpy.isclose(v[-1], 0.0)):
-                v[0], v[-1] = v[1], v[-2]
+            if numpy.isclose(v[0], 0.0):
+                v[0] = v[1]
+            if numpy.isclose(v[-1], 0.0):
+                v[-1] = v[-2]
             y = numpy.concatenate((u[len(u) // 2 :], u[: len(u) // 2]))
             y, f = numpy.fft.ifft(y) * len(y) / v, numpy.linspace(0, len(y) - 1, len(y))
         else:
-- 
2.43.0


From 6c29669239340c7210c89cdb8d1717c1093dc348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 09/21] fix: label and invert odd lengths in FourierTransform

---
 diamondback/transforms/fourier_transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diamondback/transforms/fourier_transform.py b/diamondback/transforms/fourier_transform.py
index bfd1164..31ccfba 100644
--- a/diamondback/transforms/fourier_transform.py
+++ b/diamondback/transforms/fourier_transform.py
@@ -96,7 +96,7 @@ class FourierTransform(object):
         else:
             y, f = (
                 numpy.fft.fft(v * u) / len(u),
-                numpy.linspace(-1.0, 1.0 - 2.0 / len(u), len(u)),
+                (numpy.arange(len(u)) - len(u) // 2) * (2.0 / len(u)),
             )
-            y = numpy.concatenate((y[len(y) // 2 :], y[: len(y) // 2]))
+            y = numpy.concatenate((y[(len(y) + 1) // 2 :], y[: (len(y) + 1) // 2]))
         return y, f
-- 
2.43.0


From 3d1917b6b9afe8b9bd539165e7458f4b98143b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 10/21] fix: label odd lengths in PsdTransform

---
 diamondback/transforms/psd_transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/diamondback/transforms/psd_transform.py b/diamondback/transforms/psd_transform.py
index 6fc1d87..70edcba 100644
--- a/diamondback/transforms/psd_transform.py
+++ b/diamondback/transforms/psd_transform.py
@@ -102,6 +102,6 @@ class PsdTransform(object):
             numpy.abs(numpy.fft.fft(x[ii : ii + len(b)] * b)[: len(b) // 2] / len(b)) ** 2
             for ii in range(0, len(x) - len(b) + 1, index)
         ]
-        return numpy.stack(y) if (spectrogram) else numpy.sum(y, axis=0) / len(y), numpy.linspace(
-            0.0, 1.0 - 2.0 / len(b), len(b) // 2
-        )
+        return numpy.stack(y) if (spectrogram) else numpy.sum(y, axis=0) / len(y), numpy.arange(
+            len(b) // 2
+        ) * (2.0 / len(b))
-- 
2.43.0


From 125b5f8e08a4fd407773cef4f6533224b58f80d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 11/21] fix: evaluate response and delay at the labelled
 frequencies for odd lengths

---
 diamondback/filters/fir_filter.py | 14 ++++----------
 diamondback/filters/iir_filter.py | 14 ++++----------
 2 files changed, 8 insertions(+), 20 deletions(-)

diff --git a/diamondback/filters/fir_filter.py b/diamondback/filters/fir_filter.py
index 4f71486..71f1388 100644
--- a/diamondback/filters/fir_filter.py
+++ b/diamondback/filters/fir_filter.py
@@ -249,11 +249,8 @@ class FirFilter(object):
             raise ValueError(f"Count = {count} Expected Count in (0, inf)")
         with warnings.catch_warnings():
             warnings.simplefilter("ignore")
-            y, f = (
-                group_delay((self.b, [1.0]), length, True)[1],
-                numpy.linspace(-1.0, 1.0 - 2.0 / length, length),
-            )
-            y = numpy.concatenate((y[len(y) // 2 :], y[: len(y) // 2])) * count
+            f = numpy.linspace(-1.0, 1.0 - 2.0 / length, length)
+            y = group_delay((self.b, [1.0]), math.pi * f)[1] * count
         if length > 2:
             y[0] = y[1] * 2.0 - y[2]
         return y, f
@@ -314,11 +311,8 @@ class FirFilter(object):
             raise ValueError(f"Length = {length} Expected Length in (0, inf)")
         if count <= 0:
             raise ValueError(f"Count = {count} Expected Count in (0, inf)")
-        y, f = (
-            freqz(self.b, [1.0, 0.0], length, True)[1],
-            numpy.linspace(-1.0, 1.0 - 2.0 / length, length),
-        )
-        y = numpy.concatenate((y[len(y) // 2 :], y[: len(y) // 2])) ** count
+        f = numpy.linspace(-1.0, 1.0 - 2.0 / length, length)
+        y = freqz(self.b, [1.0, 0.0], math.pi * f)[1] ** count
         return y, f
 
     def roots(self, count=1) -> tuple[numpy.ndarray, numpy.ndarray]:
diff --git a/diamondback/filters/iir_filter.py b/diamondback/filters/iir_filter.py
index 1b0f2d7..b9aa852 100644
--- a/diamondback/filters/iir_filter.py
+++ b/diamondback/filters/iir_filter.py
@@ -273,11 +273,8 @@ class IirFilter(FirFilter):
             raise ValueError(f"Count = {count} Expected Count in (0, inf)")
         with warnings.catch_warnings():
             warnings.simplefilter("ignore")
-            y, f = (
-                group_delay((self.b, numpy.concatenate(([1.0], -self.a[1:]))), length, True)[1],
-                numpy.linspace(-1.0, 1.0 - 2.0 / length, length),
-            )
-            y = numpy.concatenate((y[len(y) // 2 :], y[: len(y) // 2])) * count
+            f = numpy.linspace(-1.0, 1.0 - 2.0 / length, length)
+            y = group_delay((self.b, numpy.concatenate(([1.0], -self.a[1:]))), math.pi * f)[1] * count
         if length > 6:
             if max(abs(y[:6])) > min(abs(y[:6])) * 10.0:
                 y[:6] = numpy.sign(y[:6]) * min(abs(y[:6]))
@@ -347,11 +344,8 @@ class IirFilter(FirFilter):
             raise ValueError(f"Count = {count} Expected Count in (0, inf)")
         with warnings.catch_warnings():
             warnings.simplefilter("ignore")
-            y, f = (
-                freqz(self.b, numpy.concatenate(([1.0], -self.a[1:])), length, True)[1],
-                numpy.linspace(-1.0, 1.0 - 2.0 / length, length),
-            )
-            y = numpy.concatenate((y[len(y) // 2 :], y[: len(y) // 2])) ** count
+            f = numpy.linspace(-1.0, 1.0 - 2.0 / length, length)
+            y = freqz(self.b, numpy.concatenate(([1.0], -self.a[1:])), math.pi * f)[1] ** count
         return y, f
 
     def roots(self, count=1) -> tuple[numpy.ndarray, numpy.ndarray]:
-- 
2.43.0


From 56c7aee52dfb48da31f3ba7b43d890846250bd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 12/21] fix: accept a single row in ComplexTransform

---
 diamondback/transforms/complex_transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diamondback/transforms/complex_transform.py b/diamondback/transforms/complex_transform.py
index 26e58f8..22387c3 100644
--- a/diamondback/transforms/complex_transform.py
+++ b/diamondback/transforms/complex_transform.py
@@ -93,9 +93,9 @@ class ComplexTransform(object):
         if (rows not in (1, 3)) or (cols <= 0):
             raise ValueError(f"Rows = {rows} Columns = {cols} Expected Rows in (1, 3) and Columns in (0, inf)")
         if rows == 1:
-            v = x
+            v = numpy.reshape(x, cols)
             if not neutral:
-                v = x / ComplexTransform.GAIN
+                v = v / ComplexTransform.GAIN
             y = numpy.matmul(
                 numpy.linalg.inv(ComplexTransform.COEFFICIENT),
                 numpy.array([v.real, v.imag, numpy.zeros(cols)]),
-- 
2.43.0


From 0dc8c4144e2d676537057e92d0808528842bb3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 13/21] fix: keep fractional parts of integer signals in
 WaveletTransform

---
 diamondback/transforms/wavelet_transform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/diamondback/transforms/wavelet_transform.py b/diamondback/transforms/wavelet_transform.py
index 004deb0..84e761c 100644
--- a/diamondback/transforms/wavelet_transform.py
+++ b/diamondback/transforms/wavelet_transform.py
@@ -534,6 +534,8 @@ class WaveletTransform(object):
         if (len(x.shape) > 2) or (not len(x)):
             raise ValueError(f"X = {x}")
         v = numpy.array(x) if (len(x.shape) == 2) else numpy.array([x])
+        if not issubclass(v.dtype.type, numpy.inexact):
+            v = v.astype(float)
         rows, cols = v.shape
         if count <= 0:
             raise ValueError(f"Count = {count} Expected Count in (0, inf)")
-- 
2.43.0


From dc916220008f752f23e810d03f6fb04e9e50db0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 14/21] fix: keep imaginary parts in an inverse
 WaveletTransform

---
 diamondback/transforms/wavelet_transform.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/diamondback/transforms/wavelet_transform.py b/diamondback/transforms/wavelet_transform.py
index 84e761c..66d40f0 100644
--- a/diamondback/transforms/wavelet_transform.py
+++ b/diamondback/transforms/wavelet_transform.py
@@ -570,18 +570,18 @@ class WaveletTransform(object):
                 jj = max(cc // 2, 1)
                 y[:ii, 0:jj] = self.transform(y[:ii, 0:jj], count - 1, inverse)
             if rr > 1:
-                u = numpy.zeros(rr)
+                u = numpy.zeros(rr, y.dtype)
                 for jj in range(0, cc):
-                    w = numpy.zeros(rr)
+                    w = numpy.zeros(rr, y.dtype)
                     for kk in range(0, 2):
                         u[::2] = y[kk * (rr // 2) : (kk + 1) * (rr // 2), jj]
                         fir_filter[kk].s[:] = 0.0
                         w += 2.0 * fir_filter[kk].filter(u)
                     y[:rr, jj] = w
             if cc > 1:
-                u = numpy.zeros(cc)
+                u = numpy.zeros(cc, y.dtype)
                 for ii in range(0, rr):
-                    w = numpy.zeros(cc)
+                    w = numpy.zeros(cc, y.dtype)
                     for kk in range(0, 2):
                         u[::2] = y[ii, kk * (cc // 2) : (kk + 1) * (cc // 2)]
                         fir_filter[kk].s[:] = 0.0
-- 
2.43.0


From f30b12f5ad763eb07ea34ba7429314ced9fa3c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 15/21] fix: correct the Coiflet order 5 and Daubechies order
 11 coefficients

---
 diamondback/transforms/wavelet_transform.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/diamondback/transforms/wavelet_transform.py b/diamondback/transforms/wavelet_transform.py
index 66d40f0..750e9dd 100644
--- a/diamondback/transforms/wavelet_transform.py
+++ b/diamondback/transforms/wavelet_transform.py
@@ -91,12 +91,12 @@ class WaveletTransform(object):
         Coiflet={
             5: numpy.array(
                 [
-                    -0.07269889797984,
-                    0.33788487810742,
-                    0.85255707635042,
-                    0.38485416611448,
-                    -0.07272889752509,
-                    -0.01565476269428,
+                    -0.07273261951285,
+                    0.33789766245781,
+                    0.85257202021226,
+                    0.38486484686420,
+                    -0.07273261951285,
+                    -0.01565572813546,
                 ]
             ),
             11: numpy.array(
@@ -258,7 +258,7 @@ class WaveletTransform(object):
                     -0.0315820393174862,
                     0.0005538422011614,
                     0.0047772575109455,
-                    -0.001073010853085,
+                    -0.0010773010853085,
                 ]
             ),
             13: numpy.array(
-- 
2.43.0


From cae40f6827ae8a44edde6d1ab10cccfff7a02e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 16/21] fix: keep the order of a DiversityModel in clear

---
 diamondback/models/diversity_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/models/diversity_model.py b/diamondback/models/diversity_model.py
index 785c48f..0cb5f23 100644
--- a/diamondback/models/diversity_model.py
+++ b/diamondback/models/diversity_model.py
@@ -116,7 +116,7 @@ class DiversityModel(object):
         """Clears an instance."""
 
         self._diversity = 0.0
-        self.s = numpy.zeros((self.s.shape[1], 0))
+        self.s = numpy.zeros((self.s.shape[0], 0))
 
     def fit(self, x: list | numpy.ndarray) -> numpy.ndarray:
         """Fit an incident signal and produces a reference signal.
-- 
2.43.0


From 6e873b882a1d98559f19b03700815e45388a4374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 17/21] fix: average the covariance over samples in
 GaussianModel

---
 diamondback/models/gaussian_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/models/gaussian_model.py b/diamondback/models/gaussian_model.py
index aa80c39..8324b8d 100644
--- a/diamondback/models/gaussian_model.py
+++ b/diamondback/models/gaussian_model.py
@@ -83,7 +83,7 @@ class GaussianModel(object):
         for ii in sorted(set(y)):
             z = x[numpy.where(y == ii)[0]]
             u = z.mean(0)
-            i = numpy.linalg.inv(((z - u).T @ (z - u) / z.shape[1]) + r)
+            i = numpy.linalg.inv(((z - u).T @ (z - u) / z.shape[0]) + r)
             self._model.append(dict(covariancei=i, mean=u))
 
     def predict(self, x: numpy.ndarray) -> numpy.ndarray:
-- 
2.43.0


From 52bcac3a24048e2d02675a051aff6cfc0a5292cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 18/21] fix: predict ground truth labels that are not
 contiguous in Gaussian models

---
 diamondback/models/gaussian_mixture_model.py | 6 ++++--
 diamondback/models/gaussian_model.py         | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/diamondback/models/gaussian_mixture_model.py b/diamondback/models/gaussian_mixture_model.py
index 331ef36..0b4bd23 100644
--- a/diamondback/models/gaussian_mixture_model.py
+++ b/diamondback/models/gaussian_mixture_model.py
@@ -78,6 +78,7 @@ class GaussianMixtureModel(object):
         if regularize < 0.0:
             raise ValueError(f"Regularize = {regularize} Expected Regularize in [0.0, inf)")
         self._index = index
+        self._label: list[int] = []
         self._model: list[sklearn.mixture.GaussianMixture] = []
         self._order = order
         self._regularize = regularize
@@ -100,9 +101,10 @@ class GaussianMixtureModel(object):
             raise ValueError(f"Y = {len(y)} Expected Y = {x.shape[0]}")
         if not issubclass(y.dtype.type, numpy.integer):
             raise TypeError(f"Y = {y.dtype.type} Expected Y = {numpy.integer}")
+        self._label = sorted(set(y))
         self._model = []
         self._shape = x[0].shape
-        for ii in sorted(set(y)):
+        for ii in self._label:
             z = x[numpy.where(y == ii)[0]]
             model = sklearn.mixture.GaussianMixture(
                 covariance_type="full",
@@ -149,4 +151,4 @@ class GaussianMixtureModel(object):
                         model.weights_[kk],
                     )
                     v[jj, ii] += w * numpy.exp(-0.5 * max((x[jj] - u) @ i @ (x[jj] - u).T, 0.0))
-        return numpy.fliplr(numpy.argsort(v, axis=1))
+        return numpy.array(self._label)[numpy.fliplr(numpy.argsort(v, axis=1))]
diff --git a/diamondback/models/gaussian_model.py b/diamondback/models/gaussian_model.py
index 8324b8d..f0f9c9f 100644
--- a/diamondback/models/gaussian_model.py
+++ b/diamondback/models/gaussian_model.py
@@ -56,6 +56,7 @@ class GaussianModel(object):
 
         if regularize < 0.0:
             raise ValueError(f"Regularize = {regularize} Expected Regularize in [0.0, inf)")
+        self._label: list[Any] = []
         self._model: list[dict[Any, Any]] = []
         self._regularize = regularize
         self._shape = ()
@@ -77,10 +78,11 @@ class GaussianModel(object):
             raise ValueError(f"Y = {len(y)} Expected Y = {x.shape[0]}")
         if not issubclass(y.dtype.type, numpy.integer):
             raise TypeError(f"Y = {y.dtype.type} Expected Y = {numpy.integer}")
+        self._label = sorted(set(y))
         self._model = []
         self._shape = x[0].shape
         r = self.regularize * numpy.identity(x.shape[1])
-        for ii in sorted(set(y)):
+        for ii in self._label:
             z = x[numpy.where(y == ii)[0]]
             u = z.mean(0)
             i = numpy.linalg.inv(((z - u).T @ (z - u) / z.shape[0]) + r)
@@ -116,4 +118,4 @@ class GaussianModel(object):
                 model = self._model[ii]
                 i, u = model["covariancei"], model["mean"]
                 v[jj, ii] = max((x[jj] - u) @ i @ (x[jj] - u).T, 0.0)
-        return numpy.argsort(v, axis=1)
+        return numpy.array(self._label)[numpy.argsort(v, axis=1)]
-- 
2.43.0


From 8d7437735e22ee7816e74e4a3b7393aa3930be65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:52 +0000
Subject: [PATCH 19/21] fix: accept lists assigned to coefficients and states

The setters are declared for lists, and an assigned list failed on use.
---
 diamondback/filters/fir_filter.py            | 4 ++--
 diamondback/filters/iir_filter.py            | 2 +-
 diamondback/filters/polyphase_rate_filter.py | 2 +-
 diamondback/models/diversity_model.py        | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/diamondback/filters/fir_filter.py b/diamondback/filters/fir_filter.py
index 71f1388..00ae3d8 100644
--- a/diamondback/filters/fir_filter.py
+++ b/diamondback/filters/fir_filter.py
@@ -111,7 +111,7 @@ class FirFilter(object):
 
     @b.setter
     def b(self, b: list | numpy.ndarray):
-        self._b = b
+        self._b = b if isinstance(b, numpy.ndarray) else numpy.array(list(b))
 
     @property
     def s(self):
@@ -119,7 +119,7 @@ class FirFilter(object):
 
     @s.setter
     def s(self, s: list | numpy.ndarray):
-        self._s = s
+        self._s = s if isinstance(s, numpy.ndarray) else numpy.array(list(s))
 
     def __init__(
         self,
diff --git a/diamondback/filters/iir_filter.py b/diamondback/filters/iir_filter.py
index b9aa852..585de8d 100644
--- a/diamondback/filters/iir_filter.py
+++ b/diamondback/filters/iir_filter.py
@@ -114,7 +114,7 @@ class IirFilter(FirFilter):
 
     @a.setter
     def a(self, a: list | numpy.ndarray):
-        self._a = a
+        self._a = a if isinstance(a, numpy.ndarray) else numpy.array(list(a))
 
     def __init__(
         self,
diff --git a/diamondback/filters/polyphase_rate_filter.py b/diamondback/filters/polyphase_rate_filter.py
index cba7293..e9c3e31 100644
--- a/diamondback/filters/polyphase_rate_filter.py
+++ b/diamondback/filters/polyphase_rate_filter.py
@@ -108,7 +108,7 @@ class PolyphaseRateFilter(object):
 
     @s.setter
     def s(self, s: list | numpy.ndarray):
-        self._s = s
+        self._s = s if isinstance(s, numpy.ndarray) else numpy.array(list(s), float)
 
     def __init__(self, rate: float) -> None:
         """Initialize.
diff --git a/diamondback/models/diversity_model.py b/diamondback/models/diversity_model.py
index 0cb5f23..27ada0b 100644
--- a/diamondback/models/diversity_model.py
+++ b/diamondback/models/diversity_model.py
@@ -91,7 +91,7 @@ class DiversityModel(object):
 
     @s.setter
     def s(self, s: list | numpy.ndarray):
-        self._s = s
+        self._s = s if isinstance(s, numpy.ndarray) else numpy.array(list(s), float)
 
     def __init__(self, style: str, order: int) -> None:
         """Initialize.
-- 
2.43.0


From 59c007fb7d5b13fbdc32a67c66325435960843ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:10 +0000
Subject: [PATCH 20/21] fix: accept complex frequencies with zero imaginary
 parts in ComplexExponentialFilter

---
 diamondback/filters/complex_exponential_filter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/diamondback/filters/complex_exponential_filter.py b/diamondback/filters/complex_exponential_filter.py
index 8a70c06..fb4a370 100644
--- a/diamondback/filters/complex_exponential_filter.py
+++ b/diamondback/filters/complex_exponential_filter.py
@@ -81,6 +81,7 @@ class ComplexExponentialFilter(object):
             x = numpy.array(list(x))
         if (numpy.iscomplex(x).any()) or (not len(x)) or (abs(x) > 1.0).any():
             raise ValueError(f"X = {x}")
+        x = x.real
         y = numpy.zeros(len(x), complex)
         phase = self.phase
         for ii in range(0, len(x)):
-- 
2.43.0


From 9c913b6ef63b98d643c09b773842b814eb9831c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:42 +0000
Subject: [PATCH 21/21] fix: keep fractional parts after an integer array is
 assigned to a polyphase or diversity state

---
 diamondback/filters/polyphase_rate_filter.py | 2 +-
 diamondback/models/diversity_model.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/diamondback/filters/polyphase_rate_filter.py b/diamondback/filters/polyphase_rate_filter.py
index e9c3e31..9b7d4e1 100644
--- a/diamondback/filters/polyphase_rate_filter.py
+++ b/diamondback/filters/polyphase_rate_filter.py
@@ -108,7 +108,7 @@ class PolyphaseRateFilter(object):
 
     @s.setter
     def s(self, s: list | numpy.ndarray):
-        self._s = s if isinstance(s, numpy.ndarray) else numpy.array(list(s), float)
+        self._s = numpy.asarray(s if isinstance(s, numpy.ndarray) else list(s), float)
 
     def __init__(self, rate: float) -> None:
         """Initialize.
diff --git a/diamondback/models/diversity_model.py b/diamondback/models/diversity_model.py
index 27ada0b..76e3868 100644
--- a/diamondback/models/diversity_model.py
+++ b/diamondback/models/diversity_model.py
@@ -91,7 +91,7 @@ class DiversityModel(object):
 
     @s.setter
     def s(self, s: list | numpy.ndarray):
-        self._s = s if isinstance(s, numpy.ndarray) else numpy.array(list(s), float)
+        self._s = numpy.asarray(s if isinstance(s, numpy.ndarray) else list(s), float)
 
     def __init__(self, style: str, order: int) -> None:
         """Initialize.
-- 
2.43.0

