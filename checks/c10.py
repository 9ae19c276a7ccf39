"""C10 selecting by tag / pitch, copies, tag comparisons"""
from .lib import *

LABELS = ["with", "without", "inherit", "apart", "same", "pitch", "alltags", "allpitches", "copy", "identical",
          "compare"]
BOUNDS = {
    "quick": "any note among 16 given ones; up to 3 notes with any of 6 tags (names, compounds, a name contained in another's text, a number, "
             "untagged; for comparisons also a permuted and a repeating compound), symbolic times, pitches (in a range where they coincide) and velocities; criteria: a tag, "
             "a compound, a list, a predicate (true by any value), exact or contained, copied or not; tempo and duration symbolic",
    "thorough": "up to 4 notes",
}
OUTSIDE = "more notes, tags of other types, lists combined with containment"

CH = ["Conga", "LowConga", ("C", "maj"), ("Conga", "maj"), 3, ()]
CMP = CH + [("maj", "C"), ("C", "maj", "C"), "3", "Con"]
CRIT = ["Conga", ("C", "maj"), "maj", 3, (), ["Conga", ("C", "maj")], ["maj"], "fn", "len", "or"]
FN = {"fn": lambda t: isinstance(t, tuple), "len": lambda t: len(t) if isinstance(t, tuple) else "",
      "or": lambda t: t if t == 3 else None}


def cases(tier):
    for k in (0, 1):
        for exact in (True, False):
            yield {"op": "tags", "n": 1, "k": k, "exact": exact, "crowd": 16}
    for op in ("pitch", "copy", "identical"):
        yield {"op": op, "n": 1, "crowd": 16}
    for n in ((0, 1, 2, 3) if tier == "quick" else (0, 1, 2, 3, 4)):
        for k in range(len(CRIT)):
            for exact in (True, False, None):
                if isinstance(CRIT[k], list) and exact is False:
                    continue
                if n >= 3 and exact is None:
                    continue
                yield {"op": "tags", "n": n, "k": k, "exact": exact}
        yield {"op": "pitch", "n": n}
        if n and n < 4:
            yield {"op": "copy", "n": n}
            yield {"op": "identical", "n": n}


def notes(c, n, op, lo=0, hi=2):
    return [(c.grid("s%d" % i, -G, 4 * G, G), c.grid("d%d" % i, 1, 4 * G, G), c.int("p%d" % i, lo, hi),
             c.int("v%d" % i, 0, 127), c.choice("t%d" % i, CMP if op == "identical" and (n < 3 or i == n - 1) else CH) if op != "pitch" else CH[i % 3]) for i in range(n)]


def matches(tag, crit, exact):
    if isinstance(crit, str) and crit in FN:
        return bool(FN[crit](tag))
    if isinstance(crit, list):
        return any(tag == x for x in crit)
    if tag == crit:
        return True
    return not exact and isinstance(tag, tuple) and crit in tag


def run(c, P):
    n, op = P["n"], P["op"]
    D, bpm = c.grid("D", 0, 8 * G, G), c.int("bpm", 1, 400)
    evs = notes(c, n, op)
    evs = crowd(P, evs, CH)
    n = len(evs)
    p = mkpattern(c, evs, D, bpm=bpm, timeSignature=(3, 4), key="F#m", name="song")
    orig = list(p.events)
    inner = P["n"] < 3 and n == P["n"]
    for e in orig if inner and op != "copy" else ():
        e.originPattern = mkpattern(c, [(0, 1, 60, 1, "x")], 1)

    def spoil(q):
        """Editing what a copied note came from leaves the original alone."""
        for e in q.events if inner else ():
            c.check("apart", flats(e.originPattern) == [(0, 1, 60, 1, "x")])
            e.originPattern.duration = 9
            e.originPattern.events[0].pitch = 1
            e.originPattern.events.append(None)
        c.check("apart", not inner or all(flats(e.originPattern) == [(0, 1, 60, 1, "x")] and e.originPattern.duration == 1 for e in orig))

    def inherit(q):
        c.check("inherit", c.And(q.duration == D, q.bpm == bpm, c.eq(tuple(q.timeSignature), (3, 4)),
                                 q.key == "F#m", q.name == "song"))

    if op == "tags":
        crit, exact = CRIT[P["k"]], P["exact"]
        arg = FN[crit] if isinstance(crit, str) and crit in FN else crit
        makeCopy = c.choice("copy", [True, False])
        kw = {} if exact is None else {"exactSearch": exact}
        w = p.getPatternWithTags(arg, makeCopy=makeCopy, **kw)
        o = p.getPatternWithoutTags(arg, makeCopy=makeCopy, **kw)
        tags = [c.value(e[4]) for e in evs]
        hit_w = [matches(t, crit, exact is not False) for t in tags]
        hit_o = [matches(t, crit, exact is True) for t in tags]
        c.check("with", c.eq(flats(w), [e for e, h in zip(evs, hit_w) if h]))
        c.check("without", c.eq(flats(o), [e for e, h in zip(evs, hit_o) if not h]))
        for q, hits in ((w, hit_w), (o, [not h for h in hit_o])):
            inherit(q)
            if makeCopy:
                c.check("apart", all(a is not b for a in q.events for b in orig))
                spoil(q)
                for a in q.events:
                    a.startTime = a.startTime + 1
                    a.velocity = 1
                q.bpm = 1
                q.events.append(None)
            else:
                src = [b for b, h in zip(orig, hits) if h]
                c.check("same", len(src) == len(q.events) and all(a is b for a, b in zip(q.events, src)))
        c.check("apart", c.And(c.eq(flats(p), evs), p.bpm == bpm, p.duration == D, len(p.events) == n))
        c.observe("out", [len(w.events), len(o.events)])
    elif op == "pitch":
        x = c.int("x", 0, 2)
        makeCopy = c.choice("copy", [True, False])
        q = p.getPatternWithPitch(x, makeCopy=makeCopy)
        inherit(q)
        idx = [i for i, e in enumerate(evs) if c.fork(e[2] == x)]
        c.check("pitch", c.eq(flats(q), [evs[i] for i in idx]))
        if makeCopy:
            c.check("apart", all(a is not b for a in q.events for b in orig))
            spoil(q)
        else:
            c.check("same", all(a is orig[i] for a, i in zip(q.events, idx)))
        ps = p.getAllPitches()
        c.check("allpitches", c.And(*[c.Or(*[e[2] == y for y in ps]) for e in evs]))
        c.check("allpitches", c.And(*[c.Or(*[e[2] == y for e in evs]) for y in ps]))
        c.check("allpitches", c.And(*[c.Not(a == b) for i, a in enumerate(ps) for b in ps[:i]]))
        c.observe("out", flats(q))
        c.observe("pitches", list(ps), unordered=True)
    elif op == "copy":
        for e in p.events:
            e.originPattern = mkpattern(c, [(0, 1, 60, 1, "x")], 1)
        p.viewpoints["v"] = mkpattern(c, [(0, 1, 60, 1, ("C", "maj"))], D)
        q, e0 = p.copy(), p.events[0].copy()
        c.check("copy", c.And(c.eq(flats(q), evs), q.duration == D, q.bpm == bpm, q.key == "F#m", q.name == "song",
                              c.eq(tuple(q.timeSignature), (3, 4)), c.eq(flat(e0), evs[0])))
        c.check("copy", q.viewpoints["v"] is not p.viewpoints["v"] and
                c.eq(flats(q.viewpoints["v"]), flats(p.viewpoints["v"])))
        c.check("apart", all(a is not b for a in q.events + [e0] for b in orig))
        for e in q.events + [e0]:
            c.check("copy", e.originPattern is not None and flats(e.originPattern) == [(0, 1, 60, 1, "x")])
            e.originPattern.duration = 9
            e.originPattern.events[0].pitch = 1
            e.startTime, e.duration, e.pitch, e.velocity, e.tag = 99, 98, 97, 96, "x"
        q.events.pop()
        q.duration = q.bpm = -1
        q.viewpoints["v"].events[0].startTime = 5
        q.viewpoints["w"] = None
        c.check("apart", c.And(c.eq(flats(p), evs), p.duration == D, p.bpm == bpm, list(p.viewpoints) == ["v"],
                               p.viewpoints["v"].events[0].startTime == 0))
        c.check("apart", all(flats(e.originPattern) == [(0, 1, 60, 1, "x")] and e.originPattern.duration == 1
                             for e in p.events))
        r = p.copyWithoutEvents()
        inherit(r)
        c.check("apart", len(r.events) == 0 and r.events is not p.events)
        c.observe("out", flats(p))
    else:
        x = p.events[-1]
        tags = [c.value(e[4]) for e in evs]

        def share(a, b):
            sa = a if isinstance(a, tuple) else (a,)
            sb = b if isinstance(b, tuple) else (b,)
            return any(u == w for u in sa for w in sb)
        got = p.getIdenticalEvents(x)
        c.check("identical", len(got) == sum(t == tags[-1] for t in tags) and
                all(a is b for a, b in zip(got, [e for e, t in zip(orig, tags) if t == tags[-1]])))
        got2 = p.getIdenticalEvents(x, allTagsMustBeEquals=False)
        want = [e for e, t in zip(orig, tags) if share(t, tags[-1])]
        c.check("identical", len(got2) == len(want) and all(a is b for a, b in zip(got2, want)))
        for e, t in zip(orig, tags):
            c.check("compare", bool(x.allTagsAreEqualWith(e)) == (t == tags[-1]))
            c.check("compare", bool(e.hasCommonTagWith(x)) == share(t, tags[-1]))
            c.check("compare", bool(e.isTag(tags[-1])) == (t == tags[-1]))
        at = p.getAllTags()
        c.check("alltags", len(list(at)) == len(set(tags)) and set(c.value(t) for t in at) == set(tags))
        c.observe("out", [flat(e) for e in got2])


