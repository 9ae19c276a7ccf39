"""C04 removeOverlapped"""
from .lib import *

LABELS = ["sorted", "disjoint", "onsets", "subset", "minimal"]
BOUNDS = {
    "quick": "any note among 16 given ones (12 of its voice, 40 of 17 voices); up to 3 notes in every assignment to voices, starts [0,8] and durations (0,8] symbolic on a grid of 2^-14 beats, "
             "by tag (names, compounds that share a name, empty ones) and by pitch",
    "thorough": "up to 4 notes",
}
OUTSIDE = "zero-length notes, more notes"


def cases(tier):
    for pitch in (0, 1):
        yield {"n": 1, "voices": [0], "pitch": pitch, "m": 8, "f": 0, "crowd": 16}
        for wide, k in ((1, 12), (17, 40)):
            yield {"n": 1, "voices": [0], "pitch": pitch, "m": 8, "f": 0, "crowd": k, "wide": wide}
    for n in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4)):
        for parts in rgs(n):
            for pitch in (0, 1):
                for f in range(4 if not pitch and n in (2, 3) else 1):
                    yield {"n": n, "voices": parts, "pitch": pitch, "m": 8, "f": f}


def run(c, P):
    n, m = P["n"], P["m"]
    evs = []
    for i, v in enumerate(P["voices"]):
        s, d = c.grid("s%d" % i, 0, m * G, G), c.grid("d%d" % i, 1, m * G, G)
        vel = c.int("v%d" % i, 0, 127)
        if P["pitch"]:
            evs.append((s, d, 60 + v, vel, TAGS[i % 2]))
        else:
            evs.append((s, d, 60 + i % 2, vel, FAMILIES[P["f"]][v]))
    evs = crowd(P, evs)
    p = mkpattern(c, evs, 4 * m)
    if P["pitch"]:
        p.removeOverlapped(usePitchValues=True)
    else:
        p.removeOverlapped()
    voice = lambda f: f[2] if P["pitch"] else f[4]
    out = flats(p)
    for a, b in zip(out, out[1:]):
        c.check("sorted", a[0] <= b[0])
    for i, a in enumerate(out):
        c.check("subset", a[1] > 0)
        for b in out[i + 1:]:
            if voice(a) == voice(b):
                c.check("disjoint", c.Or(a[0] + a[1] <= b[0], b[0] + b[1] <= a[0]))
        # one of the originals, at most cropped to the voice's next onset
        same = [e for e in evs if voice(e) == voice(a)]
        nxt = lambda d: [c.If(e[0] > a[0], c.If(e[0] - a[0] < d, e[0] - a[0], d), d) for e in same]
        c.check("minimal", c.Or(*[c.And(a[0] == e[0], a[2] == e[2], a[3] == e[3], a[4] == e[4],
                                        a[1] == c.Min(nxt(e[1]))) for e in same]))
    for e in evs:
        c.check("onsets", c.Count([c.And(a[0] == e[0]) for a in out if voice(a) == voice(e)]) == 1)
    c.check("subset", len(out) <= len(evs))
    c.observe("out", out)
