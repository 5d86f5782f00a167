"""Complex exponential output has unit magnitude and accumulated phase."""
import math

from checks.lib import mixed

BOUNDS = "signals of 1..3 samples in [-1, 1] in one or two calls (thorough 5), every initial phase, phase reassigned between calls, real and integer samples, lists; 40 and 140 samples with four arbitrary ones; tones of up to 300 listed samples followed by two arbitrary ones"
ASSUMPTIONS = ["real arithmetic; exp(j pi f) is a pair of unknowns on the unit circle, with the angle addition theorem"]
T = dict(f=float, i=int)


def wrapped(c, phase, want, label, turns=4):
    c.check(c.both(phase >= -1.0, phase <= 1.0), label + " in [-1, 1]")
    d = phase - want
    c.check(c.any([abs(d - 2.0 * k) <= 1e-9 for k in range(-turns, turns + 1)]), label + " modulo two")


def exponential(c, n, kind, split=0, assign=False, aslist=False):
    p = c.real("phase", -1, 1)
    x = list(c.vec("x", n, -1, 1, kind=kind)) if n < 20 else [v if k in (0, 1, n // 2, n - 1) else v / 4.0 for k, v in enumerate(mixed(c, "x", n, (0, 1, n // 2, -1), kind, -1, 1))]
    f = c.db.ComplexExponentialFilter(phase=p)
    c.close(f.phase, p, 0.0, "initial phase")
    t = p
    for part in ([x[:split], x[split:]] if split else [x]):
        if assign and part is not x[:split] and t is not p:
            t = c.real("assigned", -1, 1)
            f.phase = t
        y = list(f.filter(list(part) if aslist else c.arr(part, T[kind])))
        c.check(len(y) == len(part), "length")
        for k, v in enumerate(part):
            c.close(y[k], c.np.exp(1j * math.pi * t), 1e-9, "exp(j pi phase)")
            t = t + v
        wrapped(c, f.phase, t, "kept phase", 4 + len(x) // 2)


def fixed(c, phase, freq, n):
    """a long constant tone: the phase stays wrapped (a shared phase table, many wraps)"""
    s = c.real("s", -0.5, 0.5)
    f = c.db.ComplexExponentialFilter(phase=phase)
    y = f.filter(c.arr([freq] * n))
    c.close(list(y), [complex(math.cos(math.pi * (phase + k * freq)), math.sin(math.pi * (phase + k * freq))) for k in range(n)], 1e-9, "tone")
    z = list(f.filter(c.arr([s, s])))
    t = phase + n * freq
    c.close(z[0], complex(math.cos(math.pi * t), math.sin(math.pi * t)), 1e-9, "tone continues")
    c.close(z[1], c.np.exp(1j * math.pi * s) * complex(math.cos(math.pi * t), math.sin(math.pi * t)), 1e-9, "tone continues")


def domain(c, n):
    x = list(c.vec("x", n, -3, 3))
    ok = True
    try:
        c.db.ComplexExponentialFilter().filter(c.arr(x))
    except ValueError:
        ok = False
    c.check(c.all([c.both(v >= -1.0, v <= 1.0) for v in x]) if ok else c.any([c.either(v < -1.0, v > 1.0) for v in x]), "frequencies in [-1, 1] accepted, others rejected")


def instances(tier):
    out = []

    def add(fn, **k):
        out.append(dict(name=fn + " " + " ".join("%s %s" % t for t in k.items()), fn=fn, kw=k))
    for n in (1, 2, 3):
        add("exponential", n=n, kind="f")
    add("exponential", n=2, kind="i")
    add("exponential", n=2, kind="f", aslist=True)
    add("exponential", n=2, kind="f", split=1)
    add("exponential", n=3, kind="f", split=2)
    add("exponential", n=2, kind="f", split=1, assign=True)
    add("exponential", n=40, kind="f")
    add("exponential", n=140, kind="f", split=130)
    add("fixed", phase=0.25, freq=0.7, n=8)
    add("fixed", phase=-1.0, freq=-1.0, n=5)
    add("fixed", phase=0.5, freq=-0.9, n=33)
    add("fixed", phase=0.25, freq=0.95, n=300)
    add("fixed", phase=-0.75, freq=-0.85, n=200)
    add("domain", n=1)
    add("domain", n=2)
    if tier == "thorough":
        for n in (4, 5):
            add("exponential", n=n, kind="f")
        add("exponential", n=4, kind="f", split=2)
    return out
