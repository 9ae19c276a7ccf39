"""C23 AgnosticDensity"""
from .lib import *

LABELS = ["grid", "count", "extremes", "monotone", "content", "steps", "others", "untouched", "independent"]
BOUNDS = {
    "quick": "patterns of up to 4 notes of 1 or 2 tags (up to 2 of them at symbolic times in half steps) on 2 to 5 steps of "
             "1/2, 1 or 2 beats; sequences of 1 to 3 symbolic densities (eighths in "
             "[-1/4,9/4]) for one or both tags, given with the pattern or without, two patterns in turn, one edited in between; both modes, all "
             "random choices",
    "thorough": "up to 6 steps, 4 notes, 4 densities in sequence",
}
OUTSIDE = ("silences among the notes, tags whose notes all fall off the grid, notes before time 0, ratios of steps to "
           "beats that are not powers of two; how the number of notes is rounded between 0, 1 and 2")
STUBS = ", random (draws are inputs)"
LO, HI, DEN = -2, 18, 8


def cases(tier):
    q = tier == "quick"
    for mode in ("random", "hysteresis"):
        # steps of each tag's notes in half steps (a number: that many, at symbolic times), steps, beats per step,
        # the tags changed by each call, how the pattern is given
        for notes, steps, beat, seq, how in [
            ([1], 2, 1, [()], "p"),
            ([2], 2, 0.5, [()], "p"),
            ([2], 3, 1, [("a",)], "p"),
            ([[3]], 4, 0.5, [("a",)], "p"),
            ([[0, 1, 4]], 4, 0.5, [("a",)], "p"),
            ([[0, 2, 5, 6]], 4, 2, [("a",)], "p"),
            ([1, [2]], 2, 2, [("a", "b")], "p"),
            ([[0, 2], [1]], 3, 1, [("a",), ("b",)], "None"),
            ([[4]], 4, 1, [("a",)] * 2, "None"),
            ([1], 2, 1, [("a",)] * 3, "None"),
            ([[2]], 3, 1, [("a",)] * 3, "None"),
            ([[0, 4]], 3, 2, [("a",)] * 3, "None"),
            ([[2, 5]], 4, 0.5, [("a",)] * 2, "None"),
            ([[0, 2]], 3, 1, [("a",)] * 2, "p"),
            ([1, 1], 2, 1, [("a",), ("b", "zz")], "two"),
            ([[0, 3]], 5, 1, [("a",)], "p"),
            ([[0]], 3, 1, [("a",)] * 2, "edit"),
            ([[2], [0]], 2, 2, [("b",), ("a",)], "edit"),
            ([[2]], 4, 0.5, [(), ("a",)], "edit"),
        ] + ([] if q else [
            ([2], 4, 1, [("a",)], "p"),
            ([3], 4, 0.5, [("a",)], "p"),
            ([1, 1], 3, 2, [("a", "b")], "p"),
            ([2], 3, 2, [("a",)] * 2, "None"),
            ([2], 3, 1, [("a",)] * 2, "p"),
            ([[4]], 6, 1, [("a",)], "p"),
            ([[1, 2, 6]], 6, 0.5, [("a",)], "p"),
            ([[2, 4], [0]], 3, 1, [("a", "b"), ("b",)], "None"),
            ([[4]], 4, 1, [("a",)] * 3, "None"),
            ([[0, 2]], 3, 1, [("a",)] * 4, "None"),
            ([[2, 4, 5]], 4, 2, [("a",)] * 2, "None"),
            ([[0, 7], [1, 2]], 4, 1, [("a",), ("b",)], "two"),
        ]):
            if mode == "random" or len(seq) > 1 or steps == 4:
                yield {"mode": mode, "notes": notes, "steps": steps, "beat": beat, "seq": [list(x) for x in seq],
                       "how": how}


def make(c, P, pre, pitch):
    """A pattern, its notes and the steps they fall on (None: off the grid)."""
    N, beat = P["steps"], P["beat"]
    evs, steps = [], []
    for t, k in zip("ab", P["notes"]):
        for j in range(k if isinstance(k, int) else len(k)):
            if isinstance(k, int):
                h = c.int("%ss%s%d" % (pre, t, j), 0, 2 * N - 1)
                ln = c.int("%sl%s%d" % (pre, t, j), 1, 4)
            else:
                h, ln = k[j], 1 + 2 * (j % 2)
            evs.append((h * beat / 2.0, ln * beat / 2.0, pitch + len(evs), 90 + len(evs), t))
            k_ = c.value(c.floor(h / 2.0 + 0.5))
            steps.append(k_ if k_ < N else None)
    return evs, steps, mkpattern(c, evs, N * beat, name="p" + pre, bpm=100)


def run(c, P):
    N, beat = P["steps"], P["beat"]
    tr = c.mod("gstransformers").AgnosticDensity(mode=P["mode"], numSteps=N)
    pats = [make(c, P, "", 60)]
    if P["how"] == "two":
        pats.append(make(c, P, "q", 70))
    for evs, steps, p in pats:
        for t in set(e[4] for e in evs):
            c.assume(any(s is not None for s, e in zip(steps, evs) if e[4] == t))
    last, results = {}, []
    for i, tags in enumerate(P["seq"]):
        evs, steps, p = pats[i % len(pats)]
        if P["how"] == "edit" and i:
            # the same pattern, with one more note and another one changed
            h = c.int("eh%d" % i, 2 * N - 4, 2 * N - 2)
            k = c.value(c.floor(h / 2.0 + 0.5))
            evs, steps = evs + [(h * beat / 2.0, beat / 2.0, 70, 80, "a")], steps + [k if k < N else None]
            evs[0] = evs[0][:2] + (50 + i,) + evs[0][3:]
            p.events.append(c.mod("gspattern").Event(*evs[-1]))
            p.events[0].pitch = 50 + i
            last = {}
        arg = p if i == 0 or P["how"] != "None" else None
        if P["how"] == "two":
            last = {}
        ds = {t: c.grid("d%d%s" % (i, t), LO, HI, DEN) for t in tags}
        out = tr.transformPattern(arg, {"normalizedDensities": dict(ds)} if ds or i else {})
        want = dict(last)
        want.update(ds)
        if P["how"] in ("p", "edit") and i:
            # which densities an earlier call with another pattern set is of no interest; those given now are
            want = dict(ds)
        verify(c, P, N, beat, evs, steps, p, out, want, last if P["how"] == "None" else {}, results, i)
        results.append((out, flats(out)))
        c.check("independent", c.And(*[c.eq(flats(o), f) for o, f in results]))
        c.check("untouched", c.And(c.eq(flats(p), evs), p.duration == N * beat, p.name == out.name, out.bpm == 100))
        last = dict(want)
    c.observe("n", [len(f) for o, f in results])


def verify(c, P, N, beat, evs, steps, p, out, want, last, results, i):
    c.check("grid", out.duration == N * beat)
    got = {}
    for e in out.events:
        k = e.startTime / beat
        c.check("steps", c.And(c.eq(k, c.floor(k)), k >= 0, k < N, e.duration == beat))
        got.setdefault(e.tag, []).append((c.value(c.floor(k)), e.pitch, e.velocity))
    tags = sorted(set(e[4] for e in evs))
    c.check("others", all(t in tags for t in got))
    for t in tags:
        mine = got.get(t, [])
        onstep = {}
        for s, e in zip(steps, evs):
            if s is not None and e[4] == t:
                onstep.setdefault(s, []).append((e[2], e[3]))
        at = [k for k, _, _ in mine]
        c.check("steps", len(set(at)) == len(at))
        n, m = len(onstep), len(mine)
        for k, pi, v in mine:
            if k in onstep:
                c.check("content", any((pi, v) == x for x in onstep[k]))
            else:
                c.check("content", any((pi, v) == x for l in onstep.values() for x in l))
        if t not in want:
            if not (P["how"] in ("p", "edit") and i):
                c.check("others", set(at) == set(onstep))
            continue
        d = c.Max([0, c.Min([2, want[t]])])
        exact = c.If(d <= 1, d * n, n + (d - 1) * (N - n))
        c.check("count", c.And(m - exact < 1, exact - m < 1))
        c.check("extremes", c.Implies(d == 0, m == 0))
        c.check("extremes", c.Implies(d == 1, set(at) == set(onstep)))
        c.check("extremes", c.Implies(d == 2, m == N))
        c.check("content", c.Implies(d <= 1, set(at) <= set(onstep)))
        c.check("content", c.Implies(d >= 1, set(at) >= set(onstep)))
        if t in last and results and P["how"] == "None":
            before = len([1 for e in results[-1][0].events if e.tag == t])
            c.check("monotone", c.And(c.Implies(want[t] >= last[t], m >= before), c.Implies(want[t] <= last[t], m <= before)))
