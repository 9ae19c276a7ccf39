"""C02 patternFromTimeSlice"""
from .lib import *

LABELS = ["selection", "content", "trim", "record", "untouched"]
BOUNDS = {
    "quick": "any note among 16 given ones; up to 4 notes, starts [-8,32], durations [0,24], window start [-8,32], length (0,24], on a grid of 2^-24 "
             "beats, trimming on/off",
    "thorough": "up to 6 notes",
}
OUTSIDE = "more notes; times off the dyadic grid (double rounding)"


def cases(tier):
    for n in (range(5) if tier == "quick" else range(7)):
        for trim in (True, False, None):
            yield {"n": n, "trim": trim, "k": 4}
    yield {"n": 1, "trim": True, "k": 4, "crowd": 16}


def run(c, P):
    n, k = P["n"], P["k"]
    g = 1 << 24
    evs = [(c.grid("s%d" % i, -2 * k * g, 8 * k * g, g), c.grid("d%d" % i, 0, 6 * k * g, g),
            c.int("p%d" % i, 0, 127), c.int("v%d" % i, 0, 127), TAGS[i % 3]) for i in range(n)]
    evs = crowd(P, evs)
    D = c.grid("D", 1, 16 * k * g, g)
    w, L = c.grid("w", -2 * k * g, 8 * k * g, g), c.grid("L", 1, 6 * k * g, g)
    p = mkpattern(c, evs, D, bpm=100, timeSignature=(3, 4), name="n", key="C")
    if P["trim"] is None:
        q = p.patternFromTimeSlice(w, L)
    else:
        q = p.patternFromTimeSlice(w, L, trimEnd=P["trim"])
    trim = P["trim"] is not False
    c.check("record", c.And(q.startTime == w, q.duration == L))
    c.check("record", c.And(q.bpm == 100, tuple(q.timeSignature) == (3, 4), q.name == "n", q.key == "C"))
    c.check("untouched", c.And(c.eq(flats(p), evs), p.duration == D, p.startTime == 0))
    ins = [e for e in evs if c.fork(c.And(e[0] >= w, e[0] < w + L))]
    c.check("selection", len(ins) == len(q.events))
    if len(ins) == len(q.events):
        for (s, d, pi, v, t), e in zip(ins, q.events):
            c.check("content", c.And(e.startTime == s - w, e.pitch == pi, e.velocity == v, e.tag == t))
            wd = c.If(s + d > w + L, w + L - s, d) if trim else d
            c.check("trim", e.duration == wd)
    for e in q.events:
        c.check("untouched", all(e is not o for o in p.events))
    c.observe("q", flats(q))
