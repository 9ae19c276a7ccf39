"""C07 applyLegato, fillWithPreviousEvent"""
from .lib import *

LABELS = ["rest", "later", "cover", "no-overlap", "fill", "fill-rest"]
BOUNDS = {
    "quick": "any note among 10 (filling: 15) given ones; up to 4 notes (and 5 for filling) in every assignment to voices (tagged with names, compounds that share a "
             "name, empty ones) and stored in any order, starts [0,12), durations (0,8], pattern duration (0,16] symbolic on "
             "a grid of 2^-14 beats; legato with and without pitch values; one symbolic probe instant",
    "thorough": "up to 5 notes",
}
OUTSIDE = "notes starting at or after the pattern's end, zero-length notes, more notes"


def cases(tier):
    quick = tier == "quick"
    m = 4
    for mode in ("legato", "fill"):
        yield {"n": 1, "voices": [0], "mode": mode, "m": m, "f": 0, "crowd": 15 if mode == "fill" else 10}
    for n in ((1, 2, 3, 4) if quick else (1, 2, 3, 4, 5)):
        for parts in rgs(n):
            for mode in ("legato", "legato-tags", "fill"):
                if mode == "fill" and parts not in ([0] * n, list(range(n))):
                    continue
                if n >= 4 and mode == "legato-tags":
                    continue
                for f in range(4 if mode == "legato" and n < 4 else 1):
                    yield {"n": n, "voices": parts, "mode": mode, "m": m, "f": f}
    if True:
        yield {"n": 5, "voices": [0, 1, 0, 2, 1], "mode": "fill", "m": m, "f": 0}


def run(c, P):
    n, m, mode = P["n"], P["m"], P["mode"]
    evs = []
    for i, v in enumerate(P["voices"]):
        evs.append((c.grid("s%d" % i, 0, 3 * m * G - 1, G), c.grid("d%d" % i, 1, 2 * m * G, G),
                    60 + (i * 5) % 2, 10 + i, FAMILIES[P["f"]][v]))
    evs = [e[:3] + (10 + i, e[4]) for i, e in enumerate(crowd(P, evs, TAGS[:2]))]
    n = len(evs)
    D = c.grid("D", 1, 4 * m * G, G)
    for e in evs:
        c.assume(e[0] < D)
    p = mkpattern(c, evs, D)
    if mode == "legato":
        p.applyLegato()
    elif mode == "legato-tags":
        p.applyLegato(usePitchValues=False)
    else:
        p.fillWithPreviousEvent()
    out = {c.value(e.velocity): flat(e) for e in p.events}
    rest = "fill-rest" if mode == "fill" else "rest"
    c.check(rest, len(p.events) == n and sorted(out) == [10 + i for i in range(n)])
    new = [out[10 + i] for i in range(n)]
    c.check(rest, p.duration == D)
    for e, f in zip(evs, new):
        c.check(rest, c.And(e[0] == f[0], e[2] == f[2], e[4] == f[4]))
    if mode == "fill":
        for f in new:
            nxt = c.Min([c.If(g[0] > f[0], g[0], D) for g in evs])
            c.check("fill", f[0] + f[1] == nxt)
    else:
        t = c.grid("t", 0, 4 * m * G, G)
        for i, (e, f) in enumerate(zip(evs, new)):
            same = [j for j in range(n) if evs[j][4] == e[4]]
            nxt = c.Min([c.If(evs[j][0] > f[0], evs[j][0], D) for j in same])
            c.check("later", f[1] >= e[1])
            c.check("no-overlap", c.Or(f[1] == e[1], f[0] + f[1] <= nxt))
            inside = c.And(f[0] <= t, t < D)
            c.check("cover", c.Implies(inside, c.Or(*[c.And(new[j][0] <= t, t < new[j][0] + new[j][1])
                                                      for j in same])))
    c.observe("out", new)
