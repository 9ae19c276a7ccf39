"""C01 splitInEqualLengthPatterns"""
from .lib import *

LABELS = ["order", "length", "inside", "sounding", "pieces", "attributes", "placeholders", "untouched"]
BOUNDS = {
    "quick": "any note among 12 given ones; up to 2 notes with symbolic start in [0,4L), duration in (0,3L] (one note: [0,6L), (0,6L]), 3 notes with "
             "start in [0,2L), duration (0,2L]; symbolic pitch, velocity, tags equal or not, names or compounds, "
             "pattern duration symbolic, one symbolic probe instant; times on a grid of 2^-14 beats; slice length "
             "L in {1, 2, 1.5, 0.25}; a note over 1100 slices; one note of 36 picked times and L in {.3, 1/3, .1, .7} in doubles; 2 notes 10 slices apart; copies or originals reused, empty slices dropped or kept, named/unnamed, viewpoint "
             "(of a pattern of any duration)",
    "thorough": "3 notes with start in [0,3L) in all modes, L in {1, 2, 4, 1.5, 0.25}; 16 and 100 slices apart",
}
OUTSIDE = "notes before time 0, patterns shorter than their notes, more notes, slice lengths off the dyadic grid other than with the times picked"


def cases(tier):
    quick = tier == "quick"
    for L in (0.3, 1 / 3, 0.1, 0.7) if quick else (0.3, 1 / 3, 0.1, 0.7, 2 / 7, 0.05, 1.2):
        yield {"op": "rounded", "L": L}
    yield {"op": "long", "L": 1, "n": 1100}
    yield {"n": 1, "L": 1, "mode": "plain", "ms": 9, "md": 4, "crowd": 12}
    for far in ((10,) if quick else (10, 16, 100)):
        for mode in ("plain", "keep", "unnamed") if far < 100 else ("plain",):
            yield {"n": 2, "L": 1, "mode": mode, "ms": 1, "md": 2, "far": far}
    for L in ([1, 2, 1.5, 0.25] if quick else [1, 2, 4, 1.5, 0.25]):
        for n in (1, 2, 3):
            for mode in ("plain", "reuse", "keep", "unnamed", "viewpoint"):
                if n == 3 and (mode not in ("plain", "keep") or L not in (1, 1.5)) and (quick or L != 1):
                    continue
                if quick and (n == 2 and L != 1 and mode != "plain" or n == 3 and (L != 1 or mode != "plain")):
                    continue
                ms, md = {1: (6, 6), 2: (4, 3), 3: (2, 2) if quick or mode not in ("plain", "keep") else (3, 2)}[n]
                yield {"n": n, "L": L, "mode": mode, "ms": ms, "md": md}


def extra(c, P):
    """A note over very many slices; slice lengths that doubles round (times picked, not symbolic)."""
    L = P["L"]
    if P["op"] == "long":
        s, d, tol = c.grid("s", 0, G - 1, G), P["n"] + c.grid("d", 0, G - 1, G), 0
    else:
        s = c.value(c.choice("s", [0, 0.1, 0.5, 7 * L, 14 * L, 1 / 3]))
        d = c.value(c.choice("d", [L, 2 * L, 7 * L, 40 * L, 1, 0.05]))
        tol = 1e-9
    keep = c.choice("keep", [True, False]) if tol else False
    p = mkpattern(c, [(s, d, 60, 100, "x")], s + d, name="song")
    got = [q for q in p.splitInEqualLengthPatterns(L, supressEmptyPattern=not keep) if q is not None and len(q.events)]
    at = s
    for q in got:
        k = c.floor(q.startTime / L + 0.5)
        c.check("order", near(c, q.startTime, k * L, tol))
        c.check("length", near(c, q.duration, L, tol))
        c.check("pieces", len(q.events) == 1)
        for e in q.events:
            c.check("inside", c.And(e.startTime >= 0, e.duration > 0, e.startTime + e.duration <= L + tol))
            c.check("sounding", near(c, q.startTime + e.startTime, at, tol))
            c.check("sounding", c.And(e.pitch == 60, e.velocity == 100, e.tag == "x"))
            at = q.startTime + e.startTime + e.duration
    c.check("sounding", near(c, at, s + d, tol))
    c.observe("slices", [(q.startTime, q.duration, flats(q)) for q in got])


def near(c, a, b, tol):
    return c.And(a - b <= tol, b - a <= tol)


def run(c, P):
    if "op" in P:
        return extra(c, P)
    n, L, mode = P["n"], P["L"], P["mode"]
    gl = int(L * G)
    tags = [("C", "maj"), c.choice("sametag", [("C", "maj"), "maj"])] if n > 1 else TAGS[:1]
    tags = (tags + [("C", "maj")])[:n]
    far = P.get("far", 0)    # slices between the first note and the others
    evs = [(c.grid("s%d" % i, (far if i else 0) * gl, (P["ms"] + (far if i else 0)) * gl - 1, G), c.grid("d%d" % i, 1, P["md"] * gl, G),
            c.int("p%d" % i, 0, 127), c.int("v%d" % i, 0, 127), tags[i]) for i in range(n)]
    evs = crowd(P, evs, ["kick", "hat"], 9)
    top = far + P["ms"] + P["md"] + 1
    D = c.grid("D", 1, top * gl, G)
    for e in evs:
        c.assume(e[0] + e[1] <= D)
    name = None if mode == "unnamed" else "song"
    bpm = c.int("bpm", 40, 240)
    p = mkpattern(c, evs, D, bpm=bpm, timeSignature=(3, 4), key="Am", name=name)
    src, vp = p, None
    if mode == "viewpoint":
        # the viewpoint may be longer or shorter than its pattern
        src = mkpattern(c, [(0, 1, 1, 1, "decoy")], c.grid("H", 1, top * gl, G), name="host")
        src.viewpoints["vp"] = p
        vp = "vp"
    keep = mode == "keep"
    if mode == "reuse":
        res = src.splitInEqualLengthPatterns(L, makeCopy=False)
    else:
        res = src.splitInEqualLengthPatterns(L, viewpointName=vp, supressEmptyPattern=not keep)
        c.check("untouched", c.And(c.eq(flats(p), evs), p.duration == D, p.name == name))
        for q in res:
            for e in (q.events if q is not None else ()):
                c.check("untouched", all(e is not o for o in p.events))

    if keep:
        c.check("placeholders", len(res) == c.ceil(D / L))
        for k, q in enumerate(res):
            hit = c.Or(*[c.And(e[0] < (k + 1) * L, e[0] + e[1] > k * L) for e in evs])
            c.check("placeholders", c.Iff(hit, q is not None and len(q.events) > 0))
            if q is not None:
                c.check("placeholders", q.startTime == k * L)
    got = [q for q in res if q is not None]
    last = None
    for q in got:
        c.check("placeholders", keep or len(q.events) > 0)
        c.check("length", q.duration == L)
        k = q.startTime / L
        c.check("order", c.And(k == c.floor(k), k >= 0))
        if last is not None:
            c.check("order", q.startTime > last)
        last = q.startTime
        c.check("attributes", c.And(q.bpm == bpm, c.eq(tuple(q.timeSignature), (3, 4)), q.key == "Am"))
        if name is not None:
            c.check("attributes", c.value(q.name).startswith(name))
        for e in q.events:
            c.check("inside", c.And(e.startTime >= 0, e.duration > 0, e.startTime + e.duration <= L))
        # as many pieces as notes touching the window
        touching = c.Count([c.And(s < q.startTime + L, s + d > q.startTime) for s, d, _, _, _ in evs])
        c.check("pieces", touching == len(q.events))
    # at every instant the sounding notes agree
    t = c.grid("t", 0, top * gl, G)
    c.assume(t < D)
    for s0, d0, p0, v0, t0 in evs:
        orig = c.Count([c.And(s <= t, t < s + d, pi == p0, v == v0, tg == t0) for s, d, pi, v, tg in evs])
        cut = c.Count([c.And(q.startTime <= t, t < q.startTime + L,
                             q.startTime + e.startTime <= t, t < q.startTime + e.startTime + e.duration,
                             e.pitch == p0, e.velocity == v0, e.tag == t0)
                       for q in got for e in q.events])
        c.check("sounding", orig == cut)
    allo = c.Count([c.And(s <= t, t < s + d) for s, d, _, _, _ in evs])
    allc = c.Count([c.And(q.startTime + e.startTime <= t, t < q.startTime + e.startTime + e.duration)
                    for q in got for e in q.events])
    c.check("sounding", allo == allc)
    c.observe("slices", [(q.startTime, q.duration, flats(q)) for q in got])
