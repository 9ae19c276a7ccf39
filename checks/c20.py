"""C20 viewpoints and vertical slices"""
from .lib import *

LABELS = ["slices", "value", "records", "stored", "untouched", "replaced", "chordify"]
BOUNDS = {
    "quick": "any note among 8 given ones (also 6 that sound together with it); up to 3 notes in any order, symbolic starts, durations and pattern duration (up to 6, 4 and 8 beats on a "
             "grid of 2^-14 beats; shorter for 3 notes and short slices; from 3 beats before time 0 on for up to 2 notes); slices of 1, 2, 3 and 4 beats, per event and of the whole; a descriptor that reports "
             "everything it is given, with values that are true or false; regenerated with another slicing and after the pattern changed; chord slices of up to 3 tagged notes",
    "thorough": "up to 4 notes",
}
OUTSIDE = "more notes, notes without duration, more than 3 beats before time 0, slices that are no whole number of beats"


def cases(tier):
    quick = tier == "quick"
    for n in ((0, 1, 2, 3) if quick else (0, 1, 2, 3, 4)):
        for sl in (1, 2, 3, 4, "perEvent", "all"):
            if n == 3 and sl in (1, 2):
                if sl == 2 or not quick:
                    yield {"op": "view", "n": n, "sl": sl, "m": 4}
            elif n < 4 or sl not in (1, 2):
                yield {"op": "view", "n": n, "sl": sl, "m": 6 if sl != 1 or not quick else 4}
            if n == 2:
                yield {"op": "view", "n": n, "sl": sl, "m": 4, "false": 1}
            if n in (1, 2) and sl in (2, 4, "perEvent", "all"):
                yield {"op": "view", "n": n, "sl": sl, "m": 4, "lo": -3}
        yield {"op": "chordify", "n": n}
        if n in (1, 2):
            yield {"op": "chordify", "n": n, "lo": -3}
    for sl in (2, "perEvent", "all"):
        yield {"op": "view", "n": 1, "sl": sl, "m": 6, "crowd": 8}
    yield {"op": "view", "n": 1, "sl": "perEvent", "m": 6, "crowd": 6, "wide": 1}
    yield {"op": "chordify", "n": 1, "crowd": 8}
    yield {"op": "chordify", "n": 1, "crowd": 7, "wide": 1}
    for n in (0, 1, 2):
        yield {"op": "chords", "n": n, "den": 4 if n < 2 else 1}
    for a in (2, "perEvent", "all"):
        for b in (4, "perEvent", "all"):
            yield {"op": "again", "a": a, "b": b, "n": 2}


def given(c, p):
    return (tuple(sorted(map(lambda e: flat(e), p.events), key=lambda f: f[3])), p.startTime, p.duration)


FALSE = [0, (), "", None, False, 0.0]


class Spy(object):
    """Descriptor that keeps all it can see; its values may be false."""
    def __init__(self, false=False):
        self.seen, self.false = [], false

    def getDescriptorForPattern(self, p):
        self.seen.append(p)
        return FALSE[(len(self.seen) - 1) % 6] if self.false else ("v", len(self.seen) - 1)


def want(c, evs, D, sl):
    """(start, duration, notes) of every slice."""
    out = []
    if sl == "all":
        if evs:
            out.append((0, D, list(evs)))
    elif sl == "perEvent":
        onsets = []
        for e in sorted(evs, key=lambda e: e[0]):
            if not onsets or c.fork(onsets[-1] < e[0]):
                onsets.append(e[0])
        for t in onsets:
            act = [e for e in evs if c.fork(c.And(e[0] <= t, t < e[0] + e[1]))]
            out.append((t, c.Max([e[0] + e[1] for e in act]) - t, act))
    else:
        k = 0
        while c.fork(k * sl < D):
            a, b = k * sl, (k + 1) * sl
            part = []
            for s, d, p, v, t in evs:
                if c.fork(c.And(s < b, s + d > a)):
                    x, y = c.Max([s, a]), c.Min([s + d, b])
                    part.append((x - a, y - x, p, v, t))
            if part:
                out.append((a, sl, part))
            k += 1
    return out


def notes(c, n, den=G, m=6, lo=0, k=0, wide=7):
    evs = [(c.grid("s%d" % i, lo * den, m * den, den), c.grid("d%d" % i, 1, min(m - 1, 4) * den, den), 60 + i, 100 + i,
            [("C", "maj"), "kick", (), "hat"][i]) for i in range(n)]
    return crowd({"crowd": k, "wide": wide}, evs, TAGS, 6), c.grid("D", 1, (m + 2) * den, den)


def judge(c, p, evs, D, vp, spy, sl, name):
    c.check("stored", p.viewpoints.get(name) is vp and len(p.viewpoints) == 1 and vp.name == name)
    c.check("records", vp.originPattern is p)
    c.check("stored", c.And(vp.duration == D, vp.bpm == 97, vp.key == "Am", c.eq(tuple(vp.timeSignature), (3, 4))))
    w = want(c, evs, D, sl)
    c.check("slices", len(vp.events) == len(w))
    for i, (e, (s, d, part)) in enumerate(zip(vp.events, w)):
        c.check("slices", c.And(e.startTime == s, e.duration == d))
        if spy.false:
            c.check("value", len(spy.seen) == len(w) and type(e.tag) is type(FALSE[i % 6]) and e.tag == FALSE[i % 6])
            q = spy.seen[i]
        else:
            c.check("value", e.tag[0] == "v")
            q = spy.seen[e.tag[1]]
        c.check("records", e.originPattern is q)
        c.check("value", c.And(q.startTime == s, q.duration == d, c.multiset_eq(flats(q), part)))
    c.check("untouched", c.And(c.eq(flats(p), evs), p.duration == D, p.name == "song", p.bpm == 97, p.startTime == 0,
                               p.key == "Am", c.eq(tuple(p.timeSignature), (3, 4))))


def run(c, P):
    op, n = P["op"], P["n"]
    evs, D = notes(c, n, P.get("den", G), P.get("m", 6), P.get("lo", 0), P.get("crowd", 0), P.get("wide", 7))
    p = mkpattern(c, evs, D, bpm=97, timeSignature=(3, 4), key="Am", name="song")
    if op == "view":
        sl, spy = P["sl"], Spy("false" in P)
        own = list(p.events)
        vp = p.generateViewpoint("look", descriptor=spy, sliceType=sl)
        judge(c, p, evs, D, vp, spy, sl, "look")
        c.check("untouched", len(own) == len(p.events) and all(a is b for a, b in zip(own, p.events)))
        c.observe("vp", [flat(e)[:2] for e in vp.events])
    elif op == "again":
        spy = Spy()
        first = p.generateViewpoint("look", descriptor=spy, sliceType=P["a"])
        old = flats(first)
        # the pattern changes in between
        D2 = c.grid("D2", 1, 8 * G, G)
        p.duration, p.bpm, p.key, p.timeSignature = D2, 120, "Gm", (4, 4)
        mid, spy = Spy(), Spy()
        vp = p.generateViewpoint("look", descriptor=mid, sliceType=P["b"])
        c.check("replaced", c.And(vp.duration == D2, vp.bpm == 120, vp.key == "Gm", c.eq(tuple(vp.timeSignature), (4, 4))))
        c.check("replaced", c.And(first.duration == D, first.bpm == 97, c.eq(flats(first), old)))
        p.duration, p.bpm, p.key, p.timeSignature = D, 97, "Am", (3, 4)
        vp = p.generateViewpoint("look", descriptor=spy, sliceType=P["b"])
        judge(c, p, evs, D, vp, spy, P["b"], "look")
        c.check("replaced", p.viewpoints["look"] is vp)
        spy2 = Spy()
        other = p.generateViewpoint("more", descriptor=spy2, sliceType="all")
        c.check("replaced", sorted(p.viewpoints) == ["look", "more"] and p.viewpoints["look"] is vp and
                p.viewpoints["more"] is other)
    elif op == "chords":
        # without a descriptor, "chords" are the chords of four-beat slices
        vp = p.generateViewpoint("chords")
        chord = c.mod("gsdescriptors").Chord()
        w = want(c, evs, D, 4)
        c.check("slices", len(vp.events) == len(w))
        for e, (s, d, part) in zip(vp.events, w):
            q = mkpattern(c, part, d)
            c.check("slices", c.And(e.startTime == s, e.duration == d))
            c.check("value", e.tag == chord.getDescriptorForPattern(q))
        c.check("untouched", c.And(c.eq(flats(p), evs), p.duration == D))
        c.observe("vp", [flat(e)[:2] for e in vp.events])  # the value may hang on rounding
    else:
        ch = c.mod("gstransformers").Chordify(p)
        w = want(c, evs, D, "perEvent")
        c.check("chordify", len(ch.events) == len(w) and ch.numChords == len(w))
        for e, (s, d, part) in zip(ch.events, w):
            c.check("chordify", e.startTime == s)
            c.check("chordify", c.multiset_eq([tuple(x) for x in e.components], [(x[2], x[3]) for x in part]))
            tags = []
            for x in part:
                tags += list(x[4]) if isinstance(x[4], tuple) else [x[4]]
            c.check("chordify", sorted(e.tag) == sorted(tags))
            c.check("chordify", any(bool(c.fork(c.And(x[0] == s, x[1] == e.duration))) for x in part))
        c.check("untouched", c.And(c.eq(flats(p), evs), p.duration == D))
        c.observe("out", [(e.startTime, sorted(e.tag)) for e in ch.events])
