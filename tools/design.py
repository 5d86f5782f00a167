#!/usr/bin/env python3
"""Writes DESIGN.md from tools/meta.py, the BOUNDS of the checks, seeded/ and the texts below."""
import ast
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = open(os.path.join(ROOT, "tools", "design_head.md")).read()
TAIL = open(os.path.join(ROOT, "tools", "design_tail.md")).read()

# id: (encoded code and symbolic values, oracle, why tests cannot)
HOW = {
    "F01": ("`FirFilter.__init__`, `filter`, `_promote` on symbolic coefficients, states and samples of every length and kind, one or two calls", "the difference equation, summed by the harness over an explicit past", "a wrong tap, shift or cast shows only for particular lengths, kinds or states"),
    "F02": ("`IirFilter.__init__`, `filter` on symbolic recursive and forward coefficients of equal and different lengths", "the recursion in direct form I, evaluated by the harness", "padding and cast errors need mixed lengths or kinds"),
    "F03": ("`reset` and `filter` of FIR, IIR and rank filters after arbitrary earlier samples", "value times the sum of the coefficients; the value itself", "tests look at shapes"),
    "F04": ("`filter` of all eleven stateful filters, once on the whole signal and once in blocks at every split", "the two runs of the same code, and the two final states", "state bugs need a second call and a specific split"),
    "F05": ("the cutoff search of `FirFilter.__init__` with arbitrary symbolic prototypes; real designs with symbolic gain", "exact gain and symmetry, argmin over the candidates seen, mirror of the twin design", "tests construct a few designs and check nothing numeric"),
    "F06": ("the cutoff search of `IirFilter.__init__` with symbolic recursive candidates; real designs with symbolic gain and frequency", "gain, Schur-Cohn style stability conditions, zeros at Nyquist, analog prototype polynomials, -3 dB, mirror", "as F05"),
    "F07": ("`response`, `delay`, `roots` of FIR and IIR filters with symbolic coefficients", "transfer function and its logarithmic derivative at the labelled frequencies, polynomial with the returned roots", "odd lengths, complex coefficients and counts are not sampled"),
    "F08": ("`DerivativeFilter` for every derivative and order on symbolic polynomials", "exact derivative of the polynomial at the delayed instant", "one wrong tap is invisible in shape tests"),
    "F09": ("`IntegralFilter` on symbolic polynomials and arbitrary signals", "Newton-Cotes increments of the exact integral; running sum for order 0", "as F08"),
    "F10": ("`PidFilter.filter` with symbolic gains, limit and samples", "step by step evaluation of the documented law with conditional integration", "saturation needs particular sequences"),
    "F11": ("`RankFilter.filter` on symbolic signals (ordering decided by branching)", "the output is a window member with the right number of members below and above", "every order type of the window is covered, ties included"),
    "F12": ("`ComplexExponentialFilter` with symbolic frequencies (points of the unit circle)", "unit magnitude, angle addition from sample to sample, wrapped phase", "phase wrap at either end and reassigned phases"),
    "F13": ("`ComplexBandpassFilter` with symbolic signal, frequency and rate", "the adaptive recursion written over the analytic signal", "tests plot"),
    "F14": ("`ComplexFrequencyFilter` with symbolic signal, frequency and rate", "the adaptive recursion, including zero samples", "zero samples and frequency reassignment"),
    "F15": ("`GoertzelFilter` with symbolic window, signal and frequency", "windowed Fourier sum of each block", "block boundaries and odd windows"),
    "F16": ("`PolynomialRateFilter` with symbolic samples and, for order 1, symbolic rate", "the interpolated polynomial at the new instants, output length", "arbitrary rates"),
    "F17": ("`PolyphaseRateFilter` with symbolic samples; symbolic rate for two samples; every row of the bank", "rows selected by the exact phase, unit gain, ramps delayed by 7.498 samples", "rounding of the phase needs particular rates"),
    "F18": ("`WindowFilter` for every style and order to 16 on symbolic signals and prototypes", "closed-form windows, normalisation", "orders and both flags"),
    "T01": ("`ComplexTransform.transform` forward and inverse", "Clarke transform matrices, round trip", "neutral and shapes"),
    "T02": ("`FourierTransform.transform` forward and inverse with symbolic signal and window", "windowed Fourier sum at each label, inverse of forward", "odd lengths, zero window ends"),
    "T03": ("`PsdTransform.transform` with symbolic signal and window for every hop", "mean over hops of the squared Fourier sums", "last hop, odd lengths"),
    "T04": ("`WaveletTransform.transform` for every style and order", "synthesis of the analysis equals the signal; Haar against its formula", "every coefficient table entry matters for some signal"),
    "T05": ("`ZTransform.transform` with symbolic coefficients and frequency", "bilinear map of poles and zeros through resultants, impulse response samples, gain at zero frequency", "symbolic frequency and order"),
    "M01": ("`DiversityModel.fit` on symbolic observations, every style", "the greedy replacement rule evaluated over pairwise distances", "exchange decisions depend on histories"),
    "M02": ("`GaussianModel.fit`, `predict` on symbolic samples, labels listed", "ranking by Mahalanobis distance from harness means and covariances", "labels, class sizes and regularisation"),
    "M03": ("`GaussianMixtureModel.fit`, `predict` with symbolic mixture parameters", "ranking by the sum of weighted densities (monotone uninterpreted exponential)", "needs mixtures that EM would not produce in a test"),
    "C01": ("`Serial.encode`, `decode`, `code`; byte buffers of symbolic length with symbolic heads, strings of symbolic characters", "layer by layer inverse, SHA3-256 of the exact bytes", "sizes, encodings, falsy instances"),
    "C02": ("`RestClient` with symbolic strings as URL, API and method, symbolic status and faults", "composition rule on symbolic strings; recorder of what is sent", "slashes in every position, every method string, every fault"),
    "C03": ("`Log` over a model of the tables of loguru, histories of operations, symbolic level numbers", "a two-variable specification (level, stream)", "histories and custom levels"),
    "C04": ("`Log` run by two or three threads under a scheduler whose preemption steps are symbolic", "some sequential order of the operations explains what was written and what is installed", "schedules"),
    "G01": ("every constructor, setter and call with a documented domain, symbolic parameter", "the domain predicate: accepted if and only if inside", "boundaries and rejected assignments that leave traces"),
    "G02": ("every class: arguments compared before and after, results overwritten, twins driven in turn", "unchanged values; a twin that was left alone", "aliasing shows only when somebody writes"),
    "G03": ("every class in all listed forms of the same values", "the results of the plain array form", "casts need a particular form in a particular place"),
}


def consts(pid):
    out = {}
    for n in ast.parse(open(os.path.join(ROOT, "checks", pid + ".py")).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("BOUNDS", "ASSUMPTIONS"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    man = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
    claimed = set(os.path.basename(f)[:-3] for f in glob.glob(os.path.join(ROOT, "checks", "[A-Z]*.py")))
    cost = {}
    try:
        cost = json.load(open(os.path.join(ROOT, "tools", "cost.json")))
    except OSError:
        pass
    o = [HEAD]
    o.append("## The properties and how each is decided\n")
    for p in props:
        i = p["id"]
        o.append("### %s — %s\n" % (i, p["title"]))
        o.append(p["statement"] + "\n")
        if i not in claimed:
            o.append("Not claimed: see MANIFEST.json.\n")
            continue
        c, h = consts(i), HOW[i]
        o.append("- Encoded: %s." % h[0])
        o.append("- Oracle: %s." % h[1])
        o.append("- Bounds: %s." % c["BOUNDS"].rstrip("."))
        o.append("- Assumptions: %s." % "; ".join(a.rstrip(".") for a in c["ASSUMPTIONS"]))
        o.append("- Beyond the tests: %s." % h[2])
        if i in cost:
            o.append("- Cost (quick): %(paths)d paths, %(queries)d solver queries, %(assertions)d assertions, about %(wall).0f s on 8 cores." % cost[i])
        o.append("")
    o.append("## Planted bugs\n")
    o.append("Every one compiles, passes the 23 tests and has a demonstration. `caught` is the check of its property, run on the patched tree.\n")
    o.append("| id | property | what it breaks | needs | caught |\n|---|---|---|---|---|")
    try:
        res = json.load(open(os.path.join(ROOT, "tools", "caught.json")))
    except OSError:
        res = {}
    for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*"))):
        m = json.load(open(os.path.join(d, "meta.json")))
        b = os.path.basename(d)
        o.append("| %s | %s | %s | %s | %s |" % (b, m["property"], m["what_it_breaks"].replace("|", "/"), str(m["needs"]).replace("|", "/"), res.get(b, "?")))
    o.append("")
    o.append("## Findings\n")
    for l in open(os.path.join(ROOT, "known_findings.txt")):
        if l.startswith(("fixed:", "finding:")):
            o.append("- " + l.strip())
    o.append("")
    o.append(TAIL)
    open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(o))


if __name__ == "__main__":
    main()
