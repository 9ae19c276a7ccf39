"""C06 quantize"""
from .lib import *

LABELS = ["start", "duration", "rest", "idem"]
BOUNDS = {
    "quick": "any note among 20 given ones; 2 notes; starts in [-2,6], durations in [0,6] beats on a grid of 2^-14 beats, steps 1, 1/2, 1/4, 1/8, 2 exactly, "
             "and for 1 note 3/4, 3/2, 1/3, 3, 0.3 up to 1e-6 and ties; each selection of start/duration",
    "thorough": "3 notes; starts in [-8,24], durations [0,24]; steps 4..1/16, for 2 notes inexact ones 3/8, 3/4, "
                "3/2, 3, 1/3, 1/6, 0.3",
}
OUTSIDE = "ties with steps that are not powers of two (doubles round), times off the dyadic grid"
EPS = 1e-6


def cases(tier):
    steps = [1, 0.5, 0.25, 2, 0.125] if tier == "quick" else [4, 2, 1, 0.5, 0.25, 0.125, 0.0625]
    n, g, hi = (2, G, 6) if tier == "quick" else (3, G, 24)
    yield {"n": 1, "g": g, "step": 0.5, "qs": 1, "qd": 1, "hi": hi, "crowd": 20}
    for s in steps:
        for qs, qd in ((1, 1), (1, 0), (0, 1), (0, 0)):
            yield {"n": n, "g": g, "step": s, "qs": qs, "qd": qd, "hi": hi}
    inexact = [0.75, 1.5, 1 / 3.0, 3, 0.3] if tier == "quick" else [0.375, 0.75, 1.5, 3, 1 / 3.0, 1 / 6.0, 0.3]
    for s in inexact:
        for qs, qd in ((1, 1), (1, 0), (0, 1)):
            yield {"n": n - 1, "g": g, "step": s, "qs": qs, "qd": qd, "hi": hi, "inexact": 1}


def near(c, a, b):
    return c.And(a - b < EPS, b - a < EPS)


def inexact(c, P):
    """Steps whose reciprocal is not a double: up to EPS, away from ties."""
    n, g, step = P["n"], P["g"], P["step"]
    evs = [(c.grid("s%d" % i, -2 * g, P["hi"] * g, g), c.grid("d%d" % i, 0, P["hi"] * g, g),
            c.int("p%d" % i, 0, 127), c.int("v%d" % i, 0, 127), TAGS[i]) for i in range(n)]
    idx = []
    for s, d, pi, v, t in evs:
        for x in (s, d):
            k = c.floor(x / step + 0.5)
            r = x / step + 0.5 - k
            c.assume(c.And(r > EPS, r < 1 - EPS))
            idx.append(k)
    p = mkpattern(c, evs, 16)
    for label in ("x", "idem"):
        p.quantize(step, bool(P["qs"]), bool(P["qd"]))
        c.check("rest", len(p.events) == n)
        for i, ((s, d, pi, v, t), e) in enumerate(zip(evs, p.events)):
            c.check("rest", c.And(e.pitch == pi, e.velocity == v, e.tag == t))
            c.check("start" if label == "x" else label,
                    near(c, e.startTime, idx[2 * i] * step) if P["qs"] else e.startTime == s)
            kd = c.If(idx[2 * i + 1] < 1, 1, idx[2 * i + 1])
            c.check("duration" if label == "x" else label,
                    near(c, e.duration, kd * step) if P["qd"] else e.duration == d)
    c.observe("steps", [(c.floor(e.startTime / step + 0.5) if P["qs"] else 0,
                         c.floor(e.duration / step + 0.5) if P["qd"] else 0) for e in p.events])


def run(c, P):
    if P.get("inexact"):
        return inexact(c, P)
    n, g, step = P["n"], P["g"], P["step"]
    evs = [(c.grid("s%d" % i, -2 * g, P["hi"] * g, g), c.grid("d%d" % i, 0, P["hi"] * g, g),
            c.int("p%d" % i, 0, 127), c.int("v%d" % i, 0, 127), TAGS[i]) for i in range(n)]
    evs = crowd(P, evs)
    n = len(evs)
    p = mkpattern(c, evs, 16)
    p.quantize(step, bool(P["qs"]), bool(P["qd"]))
    c.check("rest", len(p.events) == n)
    for (s, d, pi, v, t), e in zip(evs, p.events):
        c.check("rest", c.And(e.pitch == pi, e.velocity == v, e.tag == t))
        ws = c.ceil(s / step - 0.5) * step if P["qs"] else s
        wd = d
        if P["qd"]:
            wd = c.floor(d / step + 0.5) * step
            wd = c.If(wd < step, step, wd)
        c.check("start", e.startTime == ws)
        c.check("duration", e.duration == wd)
    before = flats(p)
    p.quantize(step, bool(P["qs"]), bool(P["qd"]))
    c.check("idem", c.eq(before, flats(p)))
    c.observe("out", flats(p))
