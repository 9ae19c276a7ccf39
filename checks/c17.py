"""C17 Density, NumberOfTags, DensityDrumSpace"""
from .lib import *

LABELS = ["density", "count", "additive", "stretch", "order", "nonneg", "untouched", "features"]
BOUNDS = {
    "quick": "any note among 16 given ones; up to 3 notes, starts [-2,8] and durations [0,8] symbolic on a grid of 2^-14 beats, pattern durations [0,10], tags any of 6 (names, a name "
             "within another, a compound, silence); 6 selections, 4 sets of ignored tags, stretching by 6 ratios",
    "thorough": "up to 4 notes (5 for the features)",
}
OUTSIDE = "more notes; empty or tuple selections; inexact sums of doubles are modelled exactly"
CH = ["Kick", "snare", "silence", ("Kick", "snare"), "low Congas", "Kic"]
DRUM = ["Kick", "low Congas", "rimshot", "shaker", "silence", "x"]
INC = [None, "Kick", ["Kick"], ["Kick", "snare", "silence"], ["low Congas", "Kic"], ["zzz"]]
IGN = [None, ["silence"], "Kick", ["Kick", "snare"]]


def cases(tier):
    N = 3 if tier == "quick" else 4
    for i in range(len(INC)):
        yield {"op": "sel", "n": 1, "inc": i, "ign": 0, "crowd": 16}
    yield {"op": "drum", "n": 1, "crowd": 16}
    for n in range(N + 1):
        for i in range(len(INC)):
            for j in range(len(IGN)):
                if n < N or (i, j) in ((0, 0), (3, 0), (1, 1), (2, 3), (4, 2)) or tier != "quick":
                    yield {"op": "sel", "n": n, "inc": i, "ign": j}
    for n in range(N + 1 if tier == "quick" else N + 2):
        yield {"op": "drum", "n": n}


def within(sel, tag):
    """Whether a tag is among the selected (a tag or a list of tags)."""
    return tag in sel if isinstance(sel, list) else tag == sel


def ignored(sel, tag):
    """Like within, but a single ignored tag also hides compounds containing it."""
    return tag in sel if isinstance(sel, list) else tag == sel or (isinstance(tag, tuple) and sel in tag)


def pattern(c, n, tags, P={}):
    evs = [(c.grid("s%d" % i, -2 * G, 8 * G, G), c.grid("d%d" % i, 0, 8 * G, G), 60, 100,
            c.value(c.choice("t%d" % i, tags))) for i in range(n)]
    evs = crowd(P, evs, tags)
    dur = c.grid("dur", 0, 10 * G, G)
    return evs, mkpattern(c, evs, dur), dur


def run(c, P):
    gd = c.mod("gsdescriptors")
    n = P["n"]
    if P["op"] == "drum":
        evs, p, dur = pattern(c, n, DRUM, P)
        f = c.mod("gsextractors").DensityDrumSpace().getFeatureSpace(p)
        groups = {"loD": ["Kick", "low Congas"], "midD": ["snare", "rimshot", "hiconga"],
                  "hiD": ["closed hihat", "shaker", "clave"]}
        c.check("features", sorted(f) == sorted(list(groups) + ["numberOfInstruments"]))
        for k, l in groups.items():
            c.check("features", f[k] == c.Sum([e[1] for e in evs if e[4] in l]))
        c.check("features", f["numberOfInstruments"] == len(set(e[4] for e in evs if e[4] != "silence")))
        c.check("untouched", c.eq(flats(p), evs))
        c.observe("f", sorted(f.items()))
        return
    inc, ign = INC[P["inc"]], IGN[P["ign"]]
    evs, p, dur = pattern(c, n, CH, P)
    kw = {}
    if inc is not None:
        kw["includedTags"] = inc
    if ign is not None:
        kw["ignoredTags"] = ign
    used = [e for e in evs if not ignored(ign or ["silence"], e[4]) and (inc is None or within(inc, e[4]))]
    d, t = gd.Density(**kw), gd.NumberOfTags(**kw)
    x, y = d.getDescriptorForPattern(p), t.getDescriptorForPattern(p)
    c.check("density", x == c.Sum([e[1] for e in used]))
    c.check("count", y == len(set(e[4] for e in used)))
    c.check("nonneg", c.And(x >= 0, y >= 0))
    c.check("untouched", c.And(c.eq(flats(p), evs), p.duration == dur))
    c.check("density", d.getDescriptorForPattern(p) == x and t.getDescriptorForPattern(p) == y)
    if inc is None:
        parts = [gd.Density(includedTags=[g], **kw).getDescriptorForPattern(p) for g in CH]
        c.check("additive", c.Sum(parts) == x)
    q = mkpattern(c, evs[::-1], dur)
    c.check("order", c.And(d.getDescriptorForPattern(q) == x, t.getDescriptorForPattern(q) == y))
    r = c.value(c.choice("r", [0.5, 2, 0.25, 3, 1, 1.5]))
    q = p.copy()
    q.timeStretch(r)
    c.check("stretch", c.And(d.getDescriptorForPattern(q) == x * r, t.getDescriptorForPattern(q) == y))
    # the same objects measure a pattern again after its notes changed
    if n:
        for nm in ("song", None):
            q = mkpattern(c, evs, dur, name=nm)
            c.check("density", d.getDescriptorForPattern(q) == x and t.getDescriptorForPattern(q) == y)
            q.events[0].tag = "snare" if evs[0][4] != "snare" else "low Congas"
            q.events[-1].duration = q.events[-1].duration + 1
            now = [e for e in flats(q) if not ignored(ign or ["silence"], e[4]) and (inc is None or within(inc, e[4]))]
            c.check("density", d.getDescriptorForPattern(q) == c.Sum([e[1] for e in now]))
            c.check("count", t.getDescriptorForPattern(q) == len(set(e[4] for e in now)))
    # one made by default is no other for those made before it
    used = [e for e in evs if not ignored(["silence"], e[4])]
    c.check("density", gd.Density().getDescriptorForPattern(p) == c.Sum([e[1] for e in used]))
    c.check("count", gd.NumberOfTags().getDescriptorForPattern(p) == len(set(e[4] for e in used)))
    c.observe("v", (x, y))
