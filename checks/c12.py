"""C12 transpose, timeStretch"""
from .lib import *

LABELS = ["pitch", "name", "rest", "undo", "scale", "unstretch", "distinct", "usable"]
BOUNDS = {
    "quick": "any note among 20 given ones; one note (named, compound or untagged) of pitch 0..127 and any interval such that the result is 0..127; two notes (the second 59 or 60) "
             "and intervals -7..7; undone for 6 intervals and any pitch; all pairs of MIDI pitches; stretching ratios symbolic (multiples of 1/8 in (0,4]) and every power of two from 1/16 to 16, "
             "times on a grid of 2^-14 beats; one further query, split and copy afterwards",
    "thorough": "transposing 3 notes, undone for intervals -60..60; stretching 4 notes, times up to 64",
}
OUTSIDE = "pitches outside MIDI's range, ratios whose products are not exact in doubles"

TAG0 = ["kick", (), ("C", "maj")]
NAMES = ["C", "C#", "D", "Eb", "E", "F", "F#", "G", "Ab", "A", "Bb", "B"]


def cases(tier):
    quick = tier == "quick"
    m = 4 if quick else 64
    for n in ((0, 1, 2) if quick else (0, 1, 2, 3)):
        yield {"op": "transpose", "n": n, "m": m, "k": None}
    for k in ((-12, -1, 0, 5, 24, 60) if quick else range(-60, 61)):
        yield {"op": "transpose", "n": 1, "m": m, "k": k}
    for n in ((0, 1, 2) if quick else (0, 1, 2, 3, 4)):
        for r in ("1/16", "1/4", "1/2", "1", "2", "8", "16", "sym") + (("int",) if n < 3 else ()):
            yield {"op": "stretch", "n": n, "m": m, "r": r}
    yield {"op": "transpose", "n": 1, "m": m, "k": 5, "crowd": 20}
    yield {"op": "stretch", "n": 1, "m": m, "r": "sym", "crowd": 20}
    for lo in range(0, 128, 16):
        yield {"op": "names", "lo": lo}


def name(c, pitch):
    """The label of a pitch (splits into one path per pitch where the code did not)."""
    k = c.value(pitch)
    return lambda label: c.value(label) == NAMES[k % 12] + str(k // 12 - 1)


def run(c, P):
    op = P["op"]
    if op == "names":
        u = c.mod("gsutil")
        a, b = c.int("a", P["lo"], P["lo"] + 15), c.int("b", 0, 127)
        c.assume(a < b)
        na, nb = u.pitch2name(a, NAMES), u.pitch2name(b, NAMES)
        c.check("distinct", c.Not(na == nb))
        c.check("name", c.And(name(c, a)(na), name(c, b)(nb)))
        c.observe("n", (na, nb))
        return
    n, m = P["n"], P["m"]
    if P.get("r") == "int":
        time = lambda k, lo, hi: c.int(k, lo, hi)
    else:
        time = lambda k, lo, hi: c.grid(k, lo, hi * G, G)
    evs = [(time("s%d" % i, 0, m), time("d%d" % i, 1, m), c.int("p%d" % i, 0, 127),
            c.int("v%d" % i, 0, 127), TAG0[(i + 2 * n) % 3] if op == "transpose" and n > 1 else c.choice("t", TAG0) if op == "transpose" else TAGS[i % 2])
           for i in range(n)]
    if op == "transpose":
        # further notes in a small range: each note is named on its own path
        evs = evs[:1] + [(e[0], e[1], c.int("q%d" % i, 59, 60), e[3], e[4]) for i, e in enumerate(evs[1:])]
    evs = crowd(P, evs)
    n = len(evs)
    D = c.grid("D", 0, 4 * m * G, G) if P.get("r") != "int" else c.int("D", 0, 4 * m)
    p = mkpattern(c, evs, D, bpm=90, timeSignature=(3, 4), key="Am", name="song")
    if op == "transpose":
        back = P["k"] is not None
        k = P["k"] if back else c.int("k", -127, 127) if n < 2 else c.int("k", -7, 7)
        for e in evs:
            c.assume(c.And(e[2] + k >= 0, e[2] + k <= 127))
        p.transpose(k)
        c.check("pitch", len(p.events) == n)
        for e, f in zip(evs, p.events):
            c.check("pitch", f.pitch == e[2] + k)
            c.check("name", name(c, e[2] + k)(f.tag))
            c.check("rest", c.And(f.startTime == e[0], f.duration == e[1], f.velocity == e[3]))
        c.check("rest", c.And(p.duration == D, p.bpm == 90, p.key == "Am"))
        c.observe("out", flats(p))
        tags = p.getAllTags()
        c.check("usable", len(p.copy().events) == n and (n == 0) == (len(list(tags)) == 0))
        if not back:
            return
        p.transpose(-k)
        for e, f in zip(evs, p.events):
            c.check("undo", c.And(f.pitch == e[2], f.startTime == e[0], f.duration == e[1], f.velocity == e[3]))
            c.check("undo", name(c, e[2])(f.tag))
    else:
        if P["r"] == "int":     # whole-number times, as in Pattern(duration=4)
            r = c.choice("r", [1 / 4, 3 / 8, 0.5, 3, 4])
        elif P["r"] == "sym":
            r = c.grid("r", 1, 32, 8)
        else:
            a, _, b = P["r"].partition("/")
            r = int(a) / int(b or 1)
        p.timeStretch(r)
        c.check("scale", c.And(len(p.events) == n, p.duration == D * r))
        for e, f in zip(evs, p.events):
            c.check("scale", c.And(f.startTime == e[0] * r, f.duration == e[1] * r))
            c.check("rest", c.And(f.pitch == e[2], f.velocity == e[3], f.tag == e[4]))
        c.check("rest", c.And(p.bpm == 90, c.eq(tuple(p.timeSignature), (3, 4)), p.key == "Am", p.name == "song"))
        c.observe("out", flats(p))
        if P["r"] not in ("sym", "int") or r in (1 / 4, 0.5, 4):
            p.timeStretch(1 / r)
            c.check("unstretch", c.And(c.eq(flats(p), evs), p.duration == D))
