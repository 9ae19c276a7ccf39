"""C13 JSON and pickle round trips of patterns"""
from .lib import *

LABELS = ["notes", "attributes", "equal", "viewpoints", "origin", "untouched", "legacy"]
BOUNDS = {
    "quick": "any note among 30 given ones; patterns of up to 3 notes stored in any order (times in half beats with a generated viewpoint), each tagged with a name, a compound, a number or nothing (2 notes: also with tags that print alike or are false), "
             "symbolic starts [0,4], durations (0,4], pitch, velocity, duration, tempo and start; tag indexing on and "
             "off, tuples preserved or not (nested compounds only if preserved), with none, a hand-made and a generated "
             "viewpoint; pickle; files of the older indexed layout with up to 2 tags per note",
    "thorough": "up to 4 notes",
}
OUTSIDE = "more notes; the text syntax of JSON itself (the standard library's, modelled as structure preserving)"
STUBS = ", json and pickle (structure preserving, in memory), files (in memory)"

CH = ["kick", ("C", "maj"), 2.5, ()]
ALIKE = [[1, "1", "(1,)"], [("C", "maj"), "('C', 'maj')", ("C",), "C"], [0, "", None, ()], ["None", None, "null", "0"]]


def cases(tier):
    ns = (0, 1, 2, 3) if tier == "quick" else (0, 1, 2, 3, 4)
    for n in ns:
        for fmt in ("json", "pickle"):
            for idx in ((True, False, None) if fmt == "json" else (None,)):
                for keep in ((True, False) if fmt == "json" else (None,)):
                    for vp in ("none", "hand", "gen"):
                        if n >= 3 and vp != "none" or n == 0 and vp == "gen":
                            continue
                        yield {"n": n, "fmt": fmt, "idx": idx, "keep": keep, "vp": vp}
    # tags that print alike, are empty or false
    for a in range(len(ALIKE)):
        for fmt in ("json", "pickle"):
            for idx in ((True, False, None) if fmt == "json" else (None,)):
                yield {"n": 2, "fmt": fmt, "idx": idx, "keep": True, "vp": "none", "alike": a}
    for fmt in ("json", "pickle"):
        for idx in (True, False) if fmt == "json" else (None,):
            yield {"n": 1, "fmt": fmt, "idx": idx, "keep": True, "vp": "none", "crowd": 30}
    for n in ns[:4]:
        yield {"n": n, "fmt": "legacy"}


def vp_rest(v):
    return v.startTime, v.bpm, tuple(v.timeSignature), v.key


def run(c, P):
    gp, gio = c.mod("gspattern"), c.mod("gsio")
    n, fmt = P["n"], P["fmt"]
    D, bpm, st = c.grid("D", 0, 12 * G, G) if P.get("vp") != "gen" else c.grid("D", 0, 12, 1), c.grid("bpm", 80, 400, 2), c.grid("st", 0, 8 * G, G)
    if fmt == "legacy":
        names = ["kick", "snare", "hat"]
        evs, lst = [], []
        for i in range(n):
            e = [c.grid("s%d" % i, 0, 4 * G, G), c.grid("d%d" % i, 1, 4 * G, G), c.int("p%d" % i, 0, 127),
                 c.int("v%d" % i, 0, 127)]
            ti = c.choice("t%d" % i, [[0], [2], [1, 0], []])
            evs.append(tuple(e) + (tuple(names[k] for k in ti),))
            lst.append({"on": e[0], "duration": e[1], "pitch": e[2], "velocity": e[3], "tagsIdx": ti})
        f = c.path("old.json")
        c.writejson(f, {"name": "old", "timeInfo": {"duration": D, "bpm": bpm, "timeSignature": [3, 4]},
                        "eventTags": names, "eventList": lst, "viewpoints": {}})
        q = gio.fromJSONFile(f)
        want = sorted(evs, key=lambda e: e[0])
        c.check("legacy", c.eq(flats(q), want))
        c.check("legacy", c.And(q.name == "old", q.bpm == bpm, c.eq(tuple(q.timeSignature), (3, 4)),
                                q.duration == c.Max([D] + [e[0] + e[1] for e in evs])))
        c.observe("out", flats(q))
        return
    tags = CH[:2] + [(("C", "maj"), "x")] + CH[3:] if P["keep"] and n < 3 else CH if n < 4 else CH[:2]
    if "alike" in P:
        tags = ALIKE[P["alike"]]
    g = 2 if P["vp"] == "gen" else G    # the values of the viewpoint depend on the times
    evs = [(c.grid("s%d" % i, 0, 4 * g, g), c.grid("d%d" % i, 1, 4 * g, g), c.int("p%d" % i, 0, 127),
            c.int("v%d" % i, 0, 127), c.choice("t%d" % i, tags)) for i in range(n)]
    evs = crowd(P, evs, ["t%d" % i for i in range(11)] + [("t%d" % i, "x") for i in range(12)])
    key = c.choice("key", [None, "F#m"]) if n < 2 else "F#m"
    metre = [3, 4] if P["idx"] is True else (3, 4)
    p = mkpattern(c, evs, D, bpm=bpm, timeSignature=metre, key=key, name="song")
    p.startTime = st
    if P["vp"] == "hand":
        v = mkpattern(c, [(0, 2, 60, 80, ("C", "maj")), (2, c.grid("vd", 1, 32, G), 60, 80, "silence")], 8, name="vp")
        v.originPattern, v.startTime, v.bpm, v.timeSignature, v.key = p, c.grid("vst", 0, 8 * G, G), bpm, (7, 8), "Gm"
        p.viewpoints["vp"] = v
    elif P["vp"] == "gen":
        p.generateViewpoint("vp", descriptor=c.mod("gsdescriptors").Density(), sliceType=4)
    vflat = flats(p.viewpoints["vp"]) if P["vp"] != "none" else None
    vdur = p.viewpoints["vp"].duration if P["vp"] != "none" else None
    vrest = vp_rest(p.viewpoints["vp"]) if P["vp"] != "none" else None
    d = c.path("out")
    if fmt == "json":
        kw = {} if P["idx"] is None else {"useTagIndexing": P["idx"]}
        f = gio.toJSONFile(p, d, conserveTuple=P["keep"], **kw)
        q = gio.fromJSONFile(f, conserveTuple=P["keep"])
    else:
        f = gio.toPickleFile(p, d, nameSuffix="_x")
        q = gio.fromPickleFile(f)
    c.check("untouched", c.multiset_eq(flats(p), evs))
    if fmt == "json":
        want = sorted(evs, key=lambda e: e[0])
        full = c.Max([D] + [e[0] + e[1] for e in evs])
    else:
        want, full = evs, D
    c.check("notes", c.eq(flats(q), want))
    c.check("attributes", c.And(q.name == "song", q.duration == full, q.bpm == bpm, q.key == key,
                                c.eq(tuple(q.timeSignature), (3, 4)), q.startTime == st))
    c.check("equal", bool(q == p))
    c.check("attributes", all(a is not b for a in q.events for b in p.events))
    c.check("viewpoints", sorted(q.viewpoints) == ([] if P["vp"] == "none" else ["vp"]))
    if P["vp"] != "none":
        w = q.viewpoints["vp"]
        if fmt == "json":
            vflat2, vdur = sorted(vflat, key=lambda e: e[0]), c.Max([vdur] + [e[0] + e[1] for e in vflat])
        else:
            vflat2 = vflat
        c.check("viewpoints", c.And(c.eq(flats(w), vflat2), w.name == "vp", w.duration == vdur))
        c.check("viewpoints", c.And(c.eq(vp_rest(w), vrest), bool(w == p.viewpoints["vp"])))
        c.check("origin", w.originPattern is q)
        c.check("untouched", c.eq(flats(p.viewpoints["vp"]), vflat) and p.viewpoints["vp"].originPattern is p)
    c.observe("out", flats(q))
