"""C31 drawing, ordering, listing and indexing a pattern"""
from .lib import *

LABELS = ["cells", "lines", "untouched", "order", "list", "index"]
BOUNDS = {
    "quick": "any note among 20 given ones (12 of its voice); up to 3 notes stored in any order, also overlapping, named, compound, numbered, untagged or silences; starts [-1,3), "
             "durations (0,3], duration [0,4] (3 notes: [0,3]; 2 notes and cells below a beat: [0,2]) symbolic on a grid of 2^-14 beats; cells of 1 and 2 beats and, "
             "with up to 2 notes, 1/4, 1/2 and 3/8 to 1; indices -3..2",
    "thorough": "up to 4 notes, longer durations, cells of 1/8 beat",
}
OUTSIDE = "cells that are no dyadic part of a beat, more notes"

TG = ["maj", ("C", "maj"), 3, "silence", ()]


def cases(tier):
    quick = tier == "quick"
    yield {"op": "draw", "n": 1, "part": [0], "b": "1/2", "D": 8, "crowd": 20}
    yield {"op": "draw", "n": 1, "part": [0], "b": "1/2", "D": 8, "crowd": 12, "wide": 1}
    yield {"op": "order", "n": 1, "crowd": 20}
    for n in ((0, 1, 2, 3) if quick else (0, 1, 2, 3, 4)):
        for part in rgs(n, 3):
            for b in ("1", "2") if n > 2 or n == 0 else ("1/4", "1/2", "1", "2", "sym"):
                D = {0: 4, 1: 4, 2: {"1": 4, "2": 4, "1/4": 1.5}.get(b, 2), 3: 3}.get(n, 2)
                yield {"op": "draw", "n": n, "part": part, "b": b, "D": D if quick or n > 2 else D + 1}
            if not quick and n < 4:
                yield {"op": "draw", "n": n, "part": part, "b": "1/8" if n < 2 else "1/2", "D": 2}
        yield {"op": "order", "n": n}


def run(c, P):
    n, op = P["n"], P["op"]
    evs = [(c.grid("s%d" % i, -G, 3 * G - 1, G), c.grid("d%d" % i, 1, 3 * G, G), c.int("p%d" % i, 0, 127),
            c.int("v%d" % i, 0, 127)) for i in range(n)]
    D = c.grid("D", 0, int(P.get("D", 4) * G), G)
    if op == "draw":
        part = P["part"]
        if n > 2 or n == 2 and P["b"] not in ("1", "2"):
            k = c.choice("k", [0, 1, 3]) if n == 2 else len(set(part))
            tags = [TG[(k + 2 * v) % 5] for v in range(3)]
        else:
            tags = [c.choice("t%d" % v, TG) for v in range(max(part) + 1 if n else 0)]
            for i in range(len(tags)):
                c.assume(all(tags[i] != t for t in tags[:i]))
        evs = crowd(P, [e + (tags[v],) for e, v in zip(evs, part)], ["t%d" % i for i in range(9)] if P.get("wide") != 1 else tags, 4)
        if P["b"] == "sym":
            b = c.choice("b", [k / 8 for k in range(3, 9)])
        else:
            x, _, y = P["b"].partition("/")
            b = int(x) / int(y) if y else int(x)
        p = mkpattern(c, evs, D)
        text = c.printed(p.printASCIIGrid, b)
        lines = text.split("\n")[:-1]
        used = list(set(e[4] for e in evs)) if P.get("crowd") else [t for v, t in enumerate(tags) if v in part]
        c.check("lines", len(lines) == len(used) and text.endswith("\n" if used else ""))
        got = {}
        for l in lines:
            cells, _, tag = l.partition("]: ")
            got[tag] = cells[1:]
            c.check("lines", l[:1] == "[")
        c.check("lines", sorted(got) == sorted(str(t) for t in used))
        for t in used:
            cells = got[str(t)]
            c.check("lines", c.And(D >= len(cells) * b, D < (len(cells) + 1) * b))
            for k, ch in enumerate(cells):
                at = k * b
                here = [c.And(e[0] <= at, at < e[0] + e[1]) for e in evs if e[4] == t and t != "silence"]
                new = [c.Or(k == 0, e[0] > at - b) for e in evs if e[4] == t and t != "silence"]
                first = c.Or(False, *[c.And(h, w) for h, w in zip(here, new)])
                c.check("cells", c.Iff(ch == "-", c.Not(c.Or(False, *here))))
                c.check("cells", c.Iff(ch == "|", first))
                c.check("cells", ch in "-|>")
        c.check("untouched", c.And(c.eq(flats(p), evs), p.duration == D))
        c.observe("out", sorted(lines))
        return
    evs = crowd(P, [e + (TG[i % 2],) for i, e in enumerate(evs)])
    n = len(evs)
    p = mkpattern(c, evs, D)
    orig = list(p.events)
    l = c.mod("gspattern").patternToList(p)
    c.check("list", len(l) == n and all(len(x) == 3 for x in l))
    c.check("list", c.And(*[c.And(x[0] == e[2], x[1] == e[0], x[2] == e[1]) for x, e in zip(l, evs)]))
    c.check("index", len(p) == n and all(a is b for a, b in zip(list(p), orig)) and len(list(p)) == n)
    c.check("index", all(p[i] is orig[i] for i in range(-n, n)))
    c.check("index", isinstance(c.raises(lambda: p[n]), IndexError))
    p.reorderEvents()
    c.check("order", len(p.events) == n)
    pos = [[i for i, e in enumerate(orig) if e is a] for a in p.events]
    c.check("order", all(len(x) == 1 for x in pos) and len(set(x[0] for x in pos)) == n)
    for a, b, i, j in zip(p.events, p.events[1:], pos, pos[1:]):
        c.check("order", c.Or(a.startTime < b.startTime, c.And(a.startTime == b.startTime, i[0] < j[0])))
    c.check("untouched", c.And(c.eq([flat(e) for e in orig], evs), p.duration == D))
    if n:
        new = c.mod("gspattern").Event(1, 1, 5, 5, "new")
        k = c.choice("k", list(range(-n, n)))
        before = list(p.events)
        p[k] = new
        before[k] = new
        c.check("index", len(p) == n and all(a is b for a, b in zip(p.events, before)) and p[k] is new)
    c.observe("out", flats(p))
