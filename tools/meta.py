#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (only properties with a check in checks/ are claimed)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "diamondback/"
NA = {}      # property -> reason, for properties without a check


def P(id, title, statement, over, text, why, files, mech, note, technique=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, technique=technique)


SYM = "symbolic execution of the package source, path by path, with z3/cvc5 deciding every assertion over all values within the bounds"
REAL = "Numbers are exact reals with a separate rounding-error bound; numpy/scipy are modelled and every run replays solver models on the real code."
T = [
    P("F01", "FIR filters realise their difference equation for every signal",
      "For every coefficient array, initial state and signal, the FIR filter returns y[n] = sum b[i] x[n-i], with the initial state standing for the samples before the first one. Real, complex and integer arrays or lists are all accepted, in any combination, without losing fractional or imaginary parts. The output has one sample per input sample.",
      ["inputs", "histories"], "all coefficient, state and signal values of every listed length and kind, in one call or two",
      "The tests run a few designed filters on one signal and never compare against the equation, nor with integer or complex coefficients.",
      ["filters/fir_filter.py"], [("delay line shift and dot product", "FirFilter.filter"), ("padding of coefficients and state", "FirFilter.__init__"), ("common type", "FirFilter._promote")],
      REAL),
    P("F02", "IIR filters realise their difference equation for every signal",
      "For every recursive and forward coefficient array (of equal or different lengths) and every signal, the IIR filter returns y[n] = sum a[i] y[n-i] + sum b[i] x[n-i] from rest. Real, complex and integer arrays or lists are all accepted, in any combination, without losing fractional or imaginary parts. The output has one sample per input sample.",
      ["inputs", "histories"], "all coefficient and signal values of every listed length and kind, in one call or two",
      "The tests run designed filters on one signal and do not compare against the recursion; mixed lengths and kinds are not run.",
      ["filters/iir_filter.py", "filters/fir_filter.py"], [("direct form II update", "IirFilter.filter"), ("padding", "IirFilter.__init__")], REAL),
    P("F03", "A reset puts a filter into the steady state of a constant signal",
      "After a reset to a value, feeding that same value gives the steady response from the first sample on: the value times the sum of the coefficients for an FIR filter, the value itself for a unity-gain IIR filter and for a rank filter. This holds whatever was filtered before the reset and for real, complex and integer values.",
      ["inputs", "histories"], "all coefficients, earlier samples and reset values within the bounds",
      "Tests reset filters but only look at output shapes.",
      ["filters/fir_filter.py", "filters/iir_filter.py", "filters/rank_filter.py"], [("state preset", "FirFilter.reset, IirFilter.reset")],
      REAL + " IIR: unity gain at zero frequency, b[0] and the sum of a at least 0.1 away from 1."),
    P("F04", "Filtering in consecutive blocks equals filtering at once",
      "For every stateful filter (FIR, IIR, derivative, integral, PID, rank, Goertzel, complex exponential, complex bandpass, complex frequency, polyphase rate), feeding a signal in consecutive non-empty blocks yields the same concatenated output as feeding it in one call. The filter is left in the same state, so later output is the same too.",
      ["inputs", "histories"], "all signals and all split positions within the bounds",
      "Tests call each filter once on one signal.",
      ["filters/"], [("state kept between calls", "every filter's s, _index, phase and b")],
      REAL + " Polyphase at rates where the rounded output length drops samples is a recorded finding."),
    P("F05", "FIR designs have the requested gain, symmetry, mirror and cutoff",
      "For every style, frequency, order, count, complement and gain, a designed FIR filter has order+1 symmetric coefficients and gain exactly equal to the requested gain at zero frequency (at Nyquist for a complement design). Among the candidates tried by the design search, it uses the one whose cascaded magnitude at the frequency is closest to -3 dB, so converged designs are at -3 dB there. A complement design is the frequency mirror of the design at one minus the frequency.",
      ["configurations", "inputs"], "arbitrary candidate prototypes, symbolic gain, and listed styles, orders, counts and frequencies",
      "Tests sample a handful of styles and orders at one or two frequencies and check nothing but construction.",
      ["filters/fir_filter.py"], [("cutoff search and normalisation", "FirFilter.__init__")],
      REAL + " The window-method prototype of scipy is an arbitrary symmetric unit-gain vector in the search instances and the real one in the design instances."),
    P("F06", "IIR designs are stable with the requested gain, mirror and cutoff",
      "For every style, frequency, order, count, complement and gain, a designed IIR filter has no zeroth recursive term, poles strictly inside the unit circle, all zeros at Nyquist (at zero frequency for a complement design) and gain exactly equal to the requested gain at zero frequency (at Nyquist for a complement design). It discretises the Bessel, Butterworth or 0.125 dB Chebyshev polynomial of the order. Converged designs have a cascaded magnitude of -3 dB of the gain at the frequency. A complement design is the frequency mirror of the design at one minus the frequency.",
      ["configurations", "inputs"], "symbolic frequency for low orders, symbolic gain for listed styles, orders, counts and frequencies",
      "Tests sample a handful of designs and check nothing but construction.",
      ["filters/iir_filter.py", "transforms/z_transform.py"], [("prototype polynomials", "IirFilter._evaluate"), ("cutoff search and normalisation", "IirFilter.__init__")], REAL),
    P("F07", "Frequency response, group delay and roots describe the filter's coefficients",
      "For every FIR and IIR filter, the k-th response value is the transfer function at the k-th returned frequency, raised to the cascade count, and the k-th delay value is the group delay there times the count, with frequencies spaced evenly over [-1, 1). The returned zeros and poles are the roots of the forward and recursive polynomials, repeated by count, in order of magnitude.",
      ["inputs", "configurations"], "all coefficients within the bounds for lengths 1..9 and counts 1..3",
      "Tests check shapes at even lengths only.",
      ["filters/fir_filter.py", "filters/iir_filter.py"], [("response, delay, roots", "FirFilter and IirFilter")],
      REAL + " Delay values that the code extrapolates or clips at the band edges are not claimed."),
    P("F08", "Derivative filters differentiate polynomials exactly",
      "For every derivative (1 to 3) and every supported order, the filter applied to samples of any polynomial of degree up to the derivative plus one yields the exact derivative at the centre of its window, once the window is filled. A constant gives zero.",
      ["inputs"], "all polynomial coefficients and all supported derivative and order pairs",
      "Tests only check the output shape.",
      ["filters/derivative_filter.py"], [("coefficient table", "DerivativeFilter.B")], REAL),
    P("F09", "Integral filters accumulate the quadrature rule of their order",
      "For every supported order the output is a running sum: each new output exceeds the previous one by the mean, over the trailing window, of any polynomial of degree up to 1, 3, 3 and 5 for orders 1 to 4, and by the sample itself for order 0.",
      ["inputs"], "all polynomial coefficients and all supported orders; all signals for the running sum",
      "Tests only check the output shape.",
      ["filters/integral_filter.py", "filters/iir_filter.py"], [("coefficient table", "IntegralFilter.B")], REAL),
    P("F10", "PID output combines value, limited integral and difference",
      "Without a limit the output is b0 times the sample plus b1 times the sum of all samples so far plus b2 times the difference to the previous sample. With a limit, the integral never exceeds the limit in magnitude, and each sample is accumulated in full whenever the resulting integral is below the limit.",
      ["inputs", "histories"], "all gains, limits and signals within the bounds",
      "Tests run one signal and check the shape.",
      ["filters/pid_filter.py"], [("conditional integration", "PidFilter.filter")], REAL),
    P("F11", "Rank filter output is the sample of the requested rank in its window",
      "At every sample, the output of a rank filter is an element of the window of the latest order+1 samples (zeros before the first one), and its magnitude has the requested rank: at most index elements are smaller and at least index+1 are not larger. This holds for real and complex signals, with ties.",
      ["inputs"], "all signals and all indices for the listed orders",
      "Tests run one signal.",
      ["filters/rank_filter.py"], [("ordering by magnitude", "RankFilter.filter")], REAL),
    P("F12", "Complex exponential output has unit magnitude and accumulated phase",
      "The n-th output is exp(j pi (phase + sum of the samples before n)) for every initial phase and frequency signal in [-1, 1]. The phase kept afterwards equals the accumulated phase modulo two and lies in [-1, 1].",
      ["inputs", "histories"], "all phases and signals within the bounds",
      "Tests run one signal.",
      ["filters/complex_exponential_filter.py"], [("phase accumulation and wrap", "ComplexExponentialFilter.filter")], REAL),
    P("F13", "Complex bandpass filter follows its adaptive recursion",
      "With the local exponential x at the filter's frequency, the returned reference, error and coefficient satisfy y = x b, e = d - y and b[n+1] = b[n] + rate e[n] conj(x[n]) for every primary signal and rate; y + e is the (analytic) primary signal. Real signals are made analytic with a Hilbert transform first.",
      ["inputs", "histories"], "all signals, rates and frequencies within the bounds",
      "Tests run one signal.",
      ["filters/complex_bandpass_filter.py"], [("coefficient update", "ComplexBandpassFilter.filter")], REAL),
    P("F14", "Complex frequency filter follows its adaptive recursion",
      "With x the primary signal normalised to unit magnitude (zero samples kept as zero), the returned coefficient and error satisfy e[n] = x[n] - b[n] x[n-1] and b[n+1] = b[n] + rate e[n] conj(x[n-1]), and the reference is the angle of b over pi. It starts at the constructor's frequency; a pure tone at the current frequency leaves it unchanged; assigning a frequency moves it there.",
      ["inputs", "histories"], "all signals, rates and frequencies within the bounds",
      "Tests run one signal.",
      ["filters/complex_frequency_filter.py"], [("coefficient update", "ComplexFrequencyFilter.filter"), ("normalisation", "ComplexFrequencyFilter.filter, reset")], REAL),
    P("F15", "Goertzel output is the windowed Fourier component of each block",
      "For every window w of length N, frequency f and signal, one output is produced per N samples and its magnitude is u |sum w[k] x[k] exp(-j pi f k)| over that block, with u = 2/N for real signals and 1/N for complex ones. Blocks are independent of each other; an assigned frequency applies from the next block on.",
      ["inputs", "histories", "configurations"], "all windows, signals and frequencies within the bounds",
      "Tests run one tone.",
      ["filters/goertzel_filter.py", "filters/iir_filter.py"], [("block recursion", "GoertzelFilter.filter"), ("frequency assignment", "GoertzelFilter.frequency")], REAL),
    P("F16", "Polynomial rate filter interpolates the signal at the new sampling instants",
      "The output has round(len * rate) samples and output k is the signal at time k/rate: linear interpolation between neighbouring samples for order 1, for orders 2 and 3 exact reproduction of polynomials of degree up to the order away from the ends, and of linear signals everywhere.",
      ["inputs", "configurations"], "all signals for the listed lengths, rates and orders",
      "Tests check lengths for one signal.",
      ["filters/polynomial_rate_filter.py"], [("local polynomial fit", "PolynomialRateFilter.filter")], REAL),
    P("F17", "Polyphase rate filter resamples with unit gain at the requested rate",
      "For every rate in its domain the output has at most round(len * rate) samples, a constant signal after a reset to it stays constant, and a ramp stays a ramp of slope 1/rate. Every output is the inner product of the bank row of the nearest phase with the latest samples; assigning a different rate starts again at phase zero, the same rate changes nothing.",
      ["inputs", "configurations"], "all signals for the listed rates and lengths",
      "Tests check lengths for one signal.",
      ["filters/polyphase_rate_filter.py"], [("phase accumulation", "PolyphaseRateFilter.filter"), ("bank", "PolyphaseRateFilter.__init__")], REAL),
    P("F18", "Window filter multiplies by a normalised window of its style",
      "The filter returns the elementwise product of the signal with its coefficients. Coefficients have length order+1, are symmetric, follow the requested style and, when normal, have magnitudes summing to order+1.",
      ["inputs", "configurations"], "all signals and arbitrary window prototypes for the listed orders and styles",
      "Tests run one signal for each style.",
      ["filters/window_filter.py"], [("normalisation", "WindowFilter.__init__")], REAL),
    P("T01", "Complex transform converts between three-phase and complex without loss",
      "A three-phase signal becomes alpha + j beta with the documented matrix (rotated and scaled by the documented gain when there is no neutral), and a complex signal becomes the three-phase signal with zero sum whose transform is that signal. Complex to three-phase to complex is the identity, three-phase to complex to three-phase is the identity on zero-sum signals, with or without neutral.",
      ["inputs"], "all signals of the listed lengths, with and without neutral",
      "Tests compare one random signal.",
      ["transforms/complex_transform.py"], [("matrix", "ComplexTransform.transform")], REAL),
    P("T02", "Fourier transform values match their frequency labels and invert",
      "For every length, real or complex signal and window, the value labelled f is (1/N) sum w[n] x[n] exp(-j pi f n), with labels covering [-1, 1) in steps of 2/N. The inverse of a forward transform with the same window (without interior zeros) returns the signal, except possibly at an end where the window is zero, where it is finite.",
      ["inputs", "configurations"], "all signals and windows of the listed lengths, even and odd",
      "Tests use even lengths and one signal.",
      ["transforms/fourier_transform.py"], [("reordering and labels", "FourierTransform.transform")], REAL),
    P("T03", "PSD values are mean windowed periodograms at their frequency labels",
      "For every signal, window of length N and hop, the spectrogram row i, label f value is |(1/N) sum w[n] x[n + i hop] exp(-j pi f n)|^2 with the N // 2 labels 0, 2/N, 4/N, ..., for every window position that fits, and without spectrogram the mean over rows. Values are never negative.",
      ["inputs", "configurations"], "all signals and windows of the listed lengths and hops",
      "Tests use even lengths and one signal.",
      ["transforms/psd_transform.py"], [("framing and labels", "PsdTransform.transform")], REAL),
    P("T04", "Wavelet synthesis undoes wavelet analysis",
      "For the Haar wavelet, synthesis after analysis returns the signal exactly for every level count and any one- or two-dimensional real, complex or integer signal of valid shape. For every other supported style and order, one level of analysis and synthesis returns the signal delayed by order-1 samples (the wavelet's length minus two). Analysis preserves constants in the approximation band once filters are filled.",
      ["inputs", "configurations"], "all signals of the listed shapes, all supported styles and orders",
      "Tests compare shapes or one random signal.",
      ["transforms/wavelet_transform.py", "filters/fir_filter.py"], [("filter bank", "WaveletTransform.transform"), ("coefficient tables", "WaveletTransform.B")], REAL),
    P("T05", "Z transform maps poles and zeros and keeps unity gain at zero frequency",
      "For every s-domain denominator, numerator and frequency, the bilinear transform maps every root s to (1 + s pi f / 2) / (1 - s pi f / 2) and impulse invariance maps every pole s to exp(s pi f); left half-plane poles map inside the unit circle. The recursive array has a zero first element and the gain at zero frequency is one. Scaling numerator and denominator does not change the result and the arguments are not modified.",
      ["inputs", "configurations"], "all coefficients up to second order and all frequencies within the bounds",
      "Tests transform one polynomial.",
      ["transforms/z_transform.py"], [("root mapping", "ZTransform.transform")], REAL),
    P("M01", "Diversity model keeps observations that maximise their minimum distance",
      "The state holds only observed rows, the first order+1 observations in order until one is replaced, and the reported diversity never decreases. Whenever it is above zero it equals the minimum pairwise distance (of the requested style) of the state, and an observation replaces a member exactly when that raises the diversity, choosing the member that raises it most. Clearing returns to the initial condition.",
      ["inputs", "histories"], "all observations within the bounds, in one call or several",
      "Tests run random data and check shapes.",
      ["models/diversity_model.py"], [("greedy replacement", "DiversityModel.fit")], REAL),
    P("M02", "Gaussian model ranks classes by Mahalanobis distance to their samples",
      "Each class is described by its sample mean and regularised sample covariance (averaged over the samples of that class), and prediction returns all ground-truth labels ordered by ascending Mahalanobis distance. The labels may be any integers in any order, and permuting the training samples changes nothing.",
      ["inputs", "configurations"], "all training and query values within the bounds, listed label sets",
      "Tests use contiguous labels and well-separated random data.",
      ["models/gaussian_model.py"], [("fit and ranking", "GaussianModel.fit, predict")], REAL),
    P("M03", "Gaussian mixture model ranks classes by weighted mixture score",
      "One mixture of the requested order, iteration count and regularisation is trained per ground-truth label, on exactly the samples of that label. Prediction returns all labels ordered by descending sum over components of weight times exp(-d/2), with d the squared Mahalanobis distance; labels may be any integers.",
      ["inputs", "configurations"], "all mixture parameters and query values within the bounds, listed label sets",
      "Tests use contiguous labels and random data.",
      ["models/gaussian_mixture_model.py"], [("fit and ranking", "GaussianMixtureModel.fit, predict")], REAL + " The expectation-maximisation of sklearn is an arbitrary result."),
    P("C01", "Serial decoding returns what was encoded, and codes are SHA3-256",
      "Decoding an encoded instance returns an equal instance, with or without compression and in every encoding that extends ASCII; compression is detected without being told. The encoded string is Base-85 of the (optionally gzip-compressed) serialised instance. The code of a string is the hexadecimal SHA3-256 digest of its bytes in the given encoding, and empty input or encoding raises ValueError.",
      ["inputs", "configurations"], "arbitrary serialised byte strings within the bounds, both compression choices, listed encodings",
      "Tests round-trip a few instances.",
      ["commons/serial.py"], [("encode, decode, code", "Serial")],
      "pickle, gzip, base64 and hashlib are axiomatised as inverse pairs and opaque functions; byte contents are symbolic."),
    P("C02", "REST requests are composed from the URL, the API and the arguments as given",
      "A request is sent exactly once, to the URL without trailing slash joined to the API without surrounding slashes by one slash (the URL alone when the API is empty), with the method in any letter case, and with params, body, JSON, headers, auth, proxies and timeout passed on unchanged. An unknown method, or both data and JSON, raises ValueError without sending; an error status raises; live is true exactly when a head request completes, and never raises.",
      ["inputs", "configurations", "fault_sequences"], "all URL and API strings up to the bounded length, all methods, arguments and server outcomes",
      "Tests talk to one local server.",
      ["commons/rest_client.py"], [("URL composition", "RestClient.request, url"), ("live probe", "RestClient.live")],
      "requests is replaced by a recorder with arbitrary outcomes; strings are symbolic sequences of character codes."),
    P("C03", "Log writes exactly the entries at or above the level, to the last stream",
      "After any sequence of level, stream and write operations, an entry is written exactly once, to the most recently assigned stream (standard output if none), if and only if its level number is at least that of the current level, including custom levels. Handlers that others added are never removed; the initial default handler and Log's own previous handler are. Unknown levels and streams without write raise ValueError; a rejected assignment changes nothing. The line holds the level name and the entry as given, and for an exception its type, its message and the file and line of every frame of its traceback.",
      ["histories", "inputs"], "all operation sequences up to the bounded length with symbolic level numbers",
      "Tests write one entry per level.",
      ["commons/log.py"], [("threshold and handler replacement", "Log.write, stream, level")],
      "loguru is represented by a model of its handler table and level table."),
    P("C04", "Concurrent use of Log loses, duplicates or misdirects no entry",
      "With any interleaving of threads that write entries, set levels and assign streams, every entry is emitted as in some sequential order of the calls: exactly once when enabled, never to two of Log's own handlers, and exactly one Log handler remains installed.",
      ["schedules"], "all interleavings of two or three threads with up to two operations each, with up to two (thorough: three) preemptions at symbolic steps",
      "Tests are single threaded.",
      ["commons/log.py"], [("reentrant lock around every operation", "Log._rlock")],
      "Threads switch at source lines of commons/log.py and in locks."),
    P("G01", "Parameters outside their documented domain are rejected, all others accepted",
      "For every constructor and property with a documented numeric or style domain, a value is accepted exactly when it lies in the domain; otherwise ValueError is raised. A rejected assignment leaves the object unchanged; style names are accepted in any letter case.",
      ["inputs", "configurations"], "all numeric values, one symbolic parameter (or two related ones) at a time",
      "Tests try a few invalid values.",
      ["filters/", "transforms/", "models/"], [("range checks", "constructors and property setters")], REAL),
    P("G02", "Filters, transforms and models leave their arguments and each other untouched",
      "No constructor, filter, transform, fit or predict call changes the arrays it is given, and results do not alias them. Two instances never share state: using or changing one does not change the output of another, nor the shared coefficient tables.",
      ["inputs", "histories"], "all values within the bounds for the listed classes",
      "Tests never look at arguments after a call.",
      ["filters/", "transforms/", "models/"], [("copies", "constructors, filter and transform methods")], REAL),
    P("G03", "Lists and arrays, and integers and floats, give the same results",
      "Every constructor, filter, transform and assignable array accepts a list as well as an array with the same result, and integer values give the same result as equal floating-point values.",
      ["inputs"], "all values within the bounds for the listed classes",
      "Tests pass floating-point arrays.",
      ["filters/", "transforms/", "models/"], [("conversions", "constructors, setters, filter and transform methods")], REAL),
]


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in T:
            assert len(p["title"]) <= 80, p["id"]
            d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                     anchors=dict(files=[D + x for x in p["files"]], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for p in T:
        if os.path.exists(os.path.join(ROOT, "checks", p["id"] + ".py")):
            checks.append(dict(property=p["id"], quick_cmd="python3-vt run.py %s" % p["id"], thorough_cmd="python3-vt run.py %s" % p["id"],
                               technique=p["technique"] or SYM, level="model_checking", level_note="Bounded: see the BOUNDS line of checks/%s.py. %s" % (p["id"], p["note"])))
        else:
            na.append(dict(property=p["id"], reason=NA.get(p["id"], "No check is built for it yet.")))
    m = dict(version=1, setup_cmd="python3-vt -c 'import z3, cvc5, numpy, scipy; import engine.core, engine.arr, engine.ctx, engine.loader, engine.shims'",
             checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")


if __name__ == "__main__":
    main()
