"""C11 time queries and equality"""
from .lib import *

LABELS = ["contains", "active", "end", "starting", "eq", "ne", "peq", "pne"]
BOUNDS = {
    "quick": "any note among 16 given ones; up to 3 notes, starts [-2,8], durations [0,4], query time [-3,13], tolerance [0,2] symbolic on a grid "
             "of 2^-14 beats; pairs of notes and of patterns (up to 2 notes each) with all fields symbolic",
    "thorough": "up to 5 notes, starts [-8,32], durations [0,16]",
}
OUTSIDE = "more notes, times off the dyadic grid"


def cases(tier):
    quick = tier == "quick"
    for n in ((0, 1, 2, 3) if quick else (0, 1, 2, 3, 4, 5)):
        yield {"op": "time", "n": n, "m": 4 if quick else 16}
    yield {"op": "time", "n": 1, "m": 4, "crowd": 16}
    yield {"op": "events"}
    for a in range(3):
        for b in range(3):
            yield {"op": "patterns", "a": a, "b": b}


def run(c, P):
    gp = c.mod("gspattern")
    if P["op"] == "time":
        n, m = P["n"], P["m"]
        evs = [(c.grid("s%d" % i, -m // 2 * G, 2 * m * G, G), c.grid("d%d" % i, 0, m * G, G), 60 + i, 100, TAGS[i % 2])
               for i in range(n)]
        evs = crowd(P, evs)
        p = mkpattern(c, evs, 4 * m)
        t, tol = c.grid("t", -m * G, 4 * m * G, G), c.grid("tol", 0, 2 * G, G)
        zero = c.choice("zero", [True, False])
        act = p.activeEventsAtTime(t)
        st = p.getStartingEventsAtTime(t) if zero else p.getStartingEventsAtTime(t, tol)
        if zero:
            tol = 0
        for e, (s, d, _, _, _) in zip(p.events, evs):
            end = e.endTime()
            c.check("end", end == s + d)
            inside = c.And(s <= t, t < s + d)
            c.check("contains", c.Iff(bool(e.containsTime(t)), inside))
            c.check("active", c.Iff(any(e is a for a in act), inside))
            c.check("starting", c.Iff(any(e is a for a in st), c.And(s <= t, t - s <= tol)))
        for l, name in ((act, "active"), (st, "starting")):
            pos = [[i for i, e in enumerate(p.events) if e is a] for a in l]
            c.check(name, all(len(x) == 1 for x in pos) and all(a < b for a, b in zip(pos, pos[1:])))
        c.check("active", c.eq(flats(p), evs))
        c.observe("out", ([flat(e) for e in act], [flat(e) for e in st]))
        return

    def note(x):
        return (c.grid("s" + x, -G, G, G), c.grid("d" + x, 0, G, G), c.int("p" + x, 60, 62), c.int("v" + x, 80, 82),
                c.choice("t" + x, ["kick", ("C", "maj")]))
    if P["op"] == "events":
        x, y = note("x"), note("y")
        a, b = gp.Event(*x), gp.Event(*y)
        b.originPattern = gp.Pattern()
        same = c.eq(x, y)
        r, q = bool(a == b), bool(a != b)
        c.check("eq", c.Iff(r, same))
        c.check("ne", q == (not r))
        c.check("ne", bool(b == a) == r and bool(b != a) == q)
        c.check("eq", a == a and not (a != a) and not (a == 3) and a != 3)
        c.observe("out", (r, q))
    else:
        xs = [note("x%d" % i) for i in range(P["a"])]
        ys = [note("y%d" % i) for i in range(P["b"])]
        dx, dy = c.grid("dx", 0, 8 * G, G), c.grid("dy", 0, 8 * G, G)
        p = mkpattern(c, xs, dx, timeSignature=c.choice("tx", [(4, 4), (3, 4), [3, 4]]), name="one", bpm=100)
        q = mkpattern(c, ys, dy, timeSignature=c.choice("ty", [(4, 4), (3, 4)]))
        p.startTime, q.startTime = c.grid("bx", -G, G, G), c.grid("by", -G, G, G)
        same = c.And(c.eq(xs, ys), dx == dy, c.eq(tuple(p.timeSignature), tuple(q.timeSignature)), p.startTime == q.startTime)
        r, s = bool(p == q), bool(p != q)
        c.check("peq", c.Iff(r, same))
        c.check("pne", s == (not r))
        c.check("pne", bool(q == p) == r)
        c.check("peq", not (p == 3) and p != 3)
        c.observe("out", (r, s))
