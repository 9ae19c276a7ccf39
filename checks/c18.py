"""C18 Syncopation"""
from .lib import *

LABELS = ["value", "nonneg", "zero", "pitch", "order", "history", "untouched"]
BOUNDS = {
    "quick": "any note among 6 or 14 given ones; notes with symbolic starts from -1 and any durations on a grid of 2^-14 beats, in patterns of symbolic duration: up to "
             "3 notes up to 4 beats, 2 notes up to 6, 1 note up to 8 (and 12, 16); before measuring, the descriptor "
             "measured another pattern of any duration up to 8",
    "thorough": "3 notes up to 8 beats (whole durations), 2 notes up to 13, 1 note up to 32",
}
OUTSIDE = "more notes, longer patterns"


def cases(tier):
    quick = tier == "quick"
    for k in range(1, 9):
        for n in range(4 if k <= 4 else 3 if k <= (6 if quick else 8) else 2):
            if not quick and k > 4 and n == 2:
                yield {"op": "value", "k": k, "n": 3, "whole": True}
            yield {"op": "value", "k": k, "n": n, "whole": False}
    for k in ((12, 16) if quick else (9, 10, 11, 12, 13, 15, 16, 24, 32)):
        for n in range(2 if quick or k > 12 else 3):
            yield {"op": "value", "k": k, "n": n, "whole": True}
    for k in (8, 16):
        yield {"op": "value", "k": k, "n": 1, "whole": True, "crowd": k - 2}
    for k in range(0, 9):
        yield {"op": "history", "k": k}
    for k in (1, 2, 3, 4, 6, 8):
        yield {"op": "zero", "k": k}


def weights(D):
    w, l = [0] * D, 0
    while D >> l:
        for j in range(1 << l):
            w[j * (D >> l)] += 1
        l += 1
    return w


def oracle(c, evs, D):
    w, r = weights(D), 0
    on = [c.Or(*[c.And(e[0] <= t, t < e[0] + e[1]) for e in evs]) for t in range(D)]
    for t in range(D):
        u = (t + 1) % D
        r = r + c.If(c.And(on[t], c.Not(on[u])), abs(w[t] - w[u]), 0)
    return r


def notes(c, n, k, x=""):
    return [(c.grid("s%s%d" % (x, i), -G, (k + 1) * G, G), c.grid("d%s%d" % (x, i), 1, (k + 1) * G, G),
             60 + i, 100, TAGS[i % 4]) for i in range(n)]


def run(c, P):
    S = c.mod("gsdescriptors").Syncopation
    k, op = P["k"], P["op"]
    if op == "value":
        n = P["n"]
        D = k if P["whole"] else c.grid("D", (k - 1) * G + 1, k * G, G)
        evs = crowd(P, notes(c, n, k), TAGS, k - 1, True)
        p = mkpattern(c, evs, D)
        s = S()
        v = s.getDescriptorForPattern(p)
        c.check("value", v == oracle(c, evs, k))
        c.check("nonneg", v >= 0)
        if n == 0:
            c.check("zero", v == 0)
        c.check("untouched", c.And(c.eq(flats(p), evs), p.duration == D))
        c.check("history", s.getDescriptorForPattern(p) == v)
        if n > 1:
            q = mkpattern(c, [(e[0], e[1], 3, 1, "z") for e in evs[::-1]], D)
            c.check("order", S().getDescriptorForPattern(q) == v)
            c.check("pitch", s.getDescriptorForPattern(q) == v)
        c.observe("v", v)
    elif op == "history":
        # whatever pattern was measured before, this one's value is its own
        a, b = notes(c, 1, 8, "a"), notes(c, 1, 8, "b")
        Da, Db = c.grid("Da", 0, 8 * 2, 2), c.grid("Db", 0, 8 * 2, 2)
        c.assume(c.And(Da > k - 1, Da <= k))
        s = S()
        s.getDescriptorForPattern(mkpattern(c, a, Da))
        v = s.getDescriptorForPattern(mkpattern(c, b, Db))
        c.check("history", v == oracle(c, b, c.value(c.ceil(Db))))
        c.observe("v", v)
    else:
        evs = notes(c, 2, k)
        for t in range(k):
            c.assume(c.Or(*[c.And(e[0] <= t, t < e[0] + e[1]) for e in evs]))
        c.check("zero", S().getDescriptorForPattern(mkpattern(c, evs, k)) == 0)
        c.check("zero", S().getDescriptorForPattern(mkpattern(c, [], k)) == 0)
