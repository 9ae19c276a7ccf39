"""C16 import of MIDI files"""
from .lib import *
from .c15 import vlq

LABELS = ["notes", "count", "tags", "untouched", "tracks", "attributes", "collection"]
BOUNDS = {
    "quick": "any note while 20 given ones sound and after 40 short ones, in the last of 12 tracks; files of 1 track with up to 3 notes (any pitch, channel, velocity, delta times 0..200; note-offs written "
             "either way, stray note-offs included), 9 maps with and without filter; 3 tracks (two named, one not), one "
             "note each of symbolic pitch, 9 track requests, 3 label sets; every pitch for pitch names; every tempo, key, "
             "metre numerator and resolution; collections of 2 files",
    "thorough": "up to 4 notes and 5 resolutions",
}
OUTSIDE = ("notes of one pitch and channel that overlap or are never ended, zero-length notes, unfiltered unmapped notes of "
           "tracks mapped by name, tracks with several names, metre or tempo changes")
STUBS = ", files and glob (in memory)"

MAPS = {
    "one": {"Kick": 36},
    "list": {"Kick": [36, 35], "Snare": (38, "*")},
    "chan": {"Kick": (36, 9), "Lead": ("*", 2), "Snare": [(38, "*"), (40, 9)]},
    "any": {"All": ("*", "*"), "Kick": 36},
    "twice": {"Kick": [36, ("*", 9)], "Lead": [("*", 1), 36]},
    "ends": {"low": 0, "high": [127, (0, 0)]},
    "ints": {1: 36, 2: [(38, 9)], ("a", "b"): 40},
    "none": {},
    "pitchName": "pitchName",
}
REQ = [None, [], [0], [1, 2], ["Kick"], ["Kick", 2], ["nothing"], [3], ["Kick 2"]]
PN = ["C", "C#", "D", "Eb", "E", "F", "F#", "G", "Ab", "A", "Bb", "B"]
MAJOR = ["Cb", "Gb", "Db", "Ab", "Eb", "Bb", "F", "C", "G", "D", "A", "E", "B", "F#", "C#"]
MINOR = ["Ab", "Eb", "Bb", "F", "C", "G", "D", "A", "E", "B", "F#", "C#", "G#", "D#", "A#"]


def cases(tier):
    quick = tier == "quick"
    for name in MAPS:
        if name == "pitchName":
            continue
        for filt in (True, False):
            for off in range(2):
                yield {"op": "notes", "map": name, "filt": filt, "seq": ["+0", "-0"], "off": off, "res": 96}
                yield {"op": "notes", "map": name, "filt": filt, "seq": ["+0", "+1", "-0", "-1"], "off": off, "res": 96}
    for seq in (["+0", "+1", "-1", "-0"], ["+0", "-0", "+0", "-0"], ["-0", "+0", "-1", "-0"],
                ["+0", "+1", "-0", "+0", "-1", "-0"]):
        for name in ("chan", "twice", "list"):
            for off in range(2):
                yield {"op": "notes", "map": name, "filt": True, "seq": seq, "off": off, "res": 96}
    for res in ((1, 480, 960) if quick else (1, 7, 120, 480, 960)):
        yield {"op": "notes", "map": "any", "filt": True, "seq": ["+0", "-0"], "off": 0, "res": res}
    if not quick:
        for seq in (["+0", "+1", "+2", "-0", "-1", "-2"], ["+0", "-0", "+1", "-1", "+0", "-0"],
                    ["+0", "+1", "-0", "+0", "-0", "-1", "+1", "-1"]):
            for name in ("chan", "twice", "list", "any"):
                for off in range(2):
                    yield {"op": "notes", "map": name, "filt": True, "seq": seq, "off": off, "res": 96}
    for over in (0, 1):
        yield {"op": "many", "over": over}
    for names in (None, PN[::-1], PN[:7]):
        yield {"op": "names", "names": names}
    for i in range(len(REQ)):
        for by in range(4):
            yield {"op": "tracks", "req": i, "by": by}
    for k in range(4):
        yield {"op": "meta", "k": k}
    for k in range(3):
        for length in (0, 1, 4):
            yield {"op": "coll", "k": k, "length": length}


def chunk(c, res, tracks):
    data = [77, 84, 104, 100, 0, 0, 0, 6, 0, 1, 0, len(tracks), res // 256, res % 256]
    for t in tracks:
        data += [77, 84, 114, 107, 0, 0, len(t) // 256, len(t) % 256] + t
    return data


def text(cmd, s):
    return [0, 0xFF, cmd, len(s)] + [ord(x) for x in s]


def near(c, a, b):
    return c.And(a - b <= 1e-6, b - a <= 1e-6)


def labels(c, mp, pitch, chan):
    """What the map says about a note: no label, a label or a tuple of them."""
    out = ()
    for l in mp:
        rules = mp[l] if isinstance(mp[l], list) else [mp[l]]
        for r in rules:
            rp, rc = r if isinstance(r, tuple) else (r, "*")
            if c.fork(c.And(True if rp == "*" else pitch == rp, True if rc == "*" else chan == rc)):
                out += (l,)
                break
    return out[0] if len(out) == 1 else out


def note(c, name, **kw):
    return {"p": c.int("p" + name, 0, 127), "c": c.int("c" + name, 0, 15), "v": c.int("v" + name, 1, 127)}


def on(n): return [0x90 + n["c"], n["p"], n["v"]]


def offs(n, kind): return [0x80 + n["c"], n["p"], 64] if kind == 0 else [0x90 + n["c"], n["p"], 0]


def copy_map(mp):
    return {k: list(v) if isinstance(v, list) else v for k, v in mp.items()} if isinstance(mp, dict) else mp


def same(c, a, b):
    return c.And(c.eq(flats(a), flats(b)), a.duration == b.duration, a.bpm == b.bpm, a.name == b.name, a.key == b.key,
                 c.eq(tuple(a.timeSignature), tuple(b.timeSignature)), a.resolution == b.resolution)


def run(c, P):
    gio = c.mod("gsio")
    op = P["op"]
    f = c.path("in.mid")
    if op == "notes":
        res = P["res"]
        ids = sorted(set(s[1] for s in P["seq"]))
        ns = {i: note(c, i) for i in ids}
        for i in ids:
            for j in ids:
                if i < j:
                    c.assume(c.Or(ns[i]["p"] != ns[j]["p"], ns[i]["c"] != ns[j]["c"]))
        body, t, opened, exp = [], 0, {}, []
        for k, s in enumerate(P["seq"]):
            n = ns[s[1]]
            dt = c.int("t%d" % k, 0, 200)
            t = t + dt
            body += vlq(c, dt)
            if s[0] == "+":
                body += on(n)
                opened[s[1]] = len(exp)
                exp.append([t, None, n])
            else:
                body += offs(n, P["off"])
                if s[1] in opened:
                    e = exp[opened.pop(s[1])]
                    e[1] = t
                    c.assume(t > e[0])
        tail = c.int("tail", 0, 100)
        body += [tail, 0xFF, 0x2F, 0]
        c.writebytes(f, chunk(c, res, [body]))
        mp = MAPS[P["map"]]
        given = copy_map(mp)
        p = gio.fromMidiFile(f, given, filterOutNotMapped=P["filt"])
        c.check("untouched", given == mp and [type(x) for x in given.values()] == [type(x) for x in mp.values()])
        want = []
        for a, b, n in exp:
            tag = labels(c, mp, n["p"], n["c"])
            if tag != () or not P["filt"]:
                want.append((a, b, n, tag))
        c.check("count", len(p.events) == len(want))
        for e, (a, b, n, tag) in zip(p.events, want):
            c.check("tags", e.tag == tag)
            c.check("notes", c.And(e.pitch == n["p"], e.velocity == n["v"], near(c, e.startTime * res, a),
                                   near(c, e.duration * res, b - a)))
        c.check("attributes", near(c, p.duration * res, t + tail) if c.fork(t + tail > 0) else True)
        c.observe("out", flats(p))
    elif op == "many":
        # a note while 20 others sound and after 40 short ones, in the last of 12 tracks
        n = note(c, "")
        g = [{"p": 30 + 2 * i, "c": i % 3, "v": 50 + i} for i in range(20)]
        for x in g:
            c.assume(n["p"] != x["p"])
        c.assume(n["p"] > 20)
        s, d = c.int("s", 0, 60), c.int("d", 1, 60)
        body, exp = [], []
        for i, x in enumerate(g):
            body += [2] + on(x)
            exp.append((2 * i + 2, 140 + i - 2 * i - 2, x))
        for i in range(40):
            x = {"p": 20, "c": 3, "v": 9 + i}
            body += [0] + on(x) + [1] + offs(x, i % 2)
            exp.append((40 + i, 1, x))
        exp.append((80 + s, d, n))
        # its note-off comes before the others' when there is room
        before = c.fork(s + d <= 60)
        body += [s] + on(n) + ([d] + offs(n, 0) + [60 - s - d] if before else [60 - s])
        for i, x in enumerate(g):
            body += ([1] if i else []) + offs(x, i % 2)
        if not before:
            c.assume(s + d > 80)
            body += [s + d - 79] + offs(n, 1)
        end = [0, 0xFF, 0x2F, 0]
        tracks = [text(3, "t%d" % i) + [1] + on({"p": 10 + i, "c": 0, "v": 9}) + [3] +
                  offs({"p": 10 + i, "c": 0}, 1) + end for i in range(11)]
        c.writebytes(f, chunk(c, 96, tracks + [body + end]))
        exp = [(1, 3, {"p": 10 + i, "v": 9}) for i in range(11)] + exp
        p = gio.fromMidiFile(f, {"All": ("*", "*")}, checkForOverlapped=bool(P["over"])) if not P["over"] else \
            gio.fromMidiFile(f, "pitchName", checkForOverlapped=True)
        c.check("count", len(p.events) == len(exp))
        for a, b, x in exp:
            c.check("notes", c.Count([c.And(e.pitch == x["p"], e.velocity == x["v"], near(c, e.startTime * 96, a),
                                            near(c, e.duration * 96, b)) for e in p.events]) == 1)
        c.observe("out", flats(p), unordered=True)
    elif op == "names":
        n = note(c, "")
        c.writebytes(f, chunk(c, 96, [[0] + on(n) + [96] + offs(n, 0) + [0, 0xFF, 0x2F, 0]]))
        mp = "pitchName" if P["names"] is None else {"pitchName": list(P["names"])}
        p = gio.fromMidiFile(f, mp)
        c.check("untouched", mp == "pitchName" or mp == {"pitchName": P["names"]})
        names = P["names"] or c.mod("gsdefs").defaultPitchNames
        v = c.value(n["p"])
        c.check("tags", len(p.events) == 1 and p.events[0].tag == "%s%d" % (names[v % len(names)], v // len(names) - 1))
        if P["names"] is None:
            base = {"C": 0, "D": 2, "E": 4, "F": 5, "G": 7, "A": 9, "B": 11}[p.events[0].tag[0]]
            alt = {"#": 1, "b": -1}.get(p.events[0].tag[1], 0)
            c.check("tags", (base + alt) % 12 == v % 12)
    elif op == "tracks":
        ns = [note(c, str(i)) for i in range(3)]
        head = [text(3, "Kick 2"), text(3, "Kick"), []]
        end = [0, 0xFF, 0x2F, 0]
        c.writebytes(f, chunk(c, 96, [h + [0] + on(n) + [10 * (i + 1)] + offs(n, 1) + end
                                      for i, (h, n) in enumerate(zip(head, ns))]))
        req, by = REQ[P["req"]], P["by"]
        if by == 0:
            mp, byname, exp = {"x": ("*", "*")}, False, ["x", "x", "x"]
        elif by == 1:
            mp, byname, exp = {"Kick": 1}, True, ["Kick", "Kick", ()]
        elif by == 2:
            mp, byname, exp = {"Kick": 1, "2": 1, "zzz": 36}, True, [("Kick", "2"), "Kick", ()]
        else:
            mp, byname, exp = {"Snare": 36}, True, [(), (), ()]
        given = copy_map(mp)
        want = list(req) if req is not None else None
        p = gio.fromMidiFile(f, given, tracksToGet=want, tagFromTrackName=byname)
        c.check("untouched", given == mp and want == req)
        title = ["Kick 2", "Kick", None]
        k = [i for i in range(3) if (not req or i in req or title[i] in req) and exp[i] != ()]
        c.check("tracks", len(p.events) == len(k))
        for e, i in zip(p.events, k):
            c.check("tags", e.tag == exp[i])
            c.check("notes", c.And(e.pitch == ns[i]["p"], e.velocity == ns[i]["v"], e.startTime == 0,
                                   near(c, e.duration * 96, 10 * (i + 1))))
        c.observe("out", flats(p))
    elif op == "meta":
        k = P["k"]
        res = c.int("res", 1, 0x7FFF) if k == 0 else 480
        q = c.int("q", 1, 0xFFFFFF) if k == 1 else 500000
        num = c.int("num", 1, 64) if k == 2 else 4
        den = c.int("den", 0, 5) if k == 2 else 2
        a, mi = (c.int("a", -7, 7), c.int("mi", 0, 1)) if k == 3 else (0, 0)
        metas = [[0, 0xFF, 0x58, 4, num, den, 24, 8], [0, 0xFF, 0x51, 3, q // 65536, q // 256 % 256, q % 256],
                 [0, 0xFF, 0x59, 2, c.If(a < 0, a + 256, a), mi]]
        where = c.choice("where", [0, 1])   # in the first or in the second track
        n = {"p": 60, "c": 0, "v": 100}
        notes = [0] + on(n) + [96] + offs(n, 0) + [0, 0xFF, 0x2F, 0]
        w = c.value(where)
        some = c.value(c.choice("some", [0, 1]))   # all of them or just this one
        used = [x for i, x in enumerate(metas) if some == 0 or i == {0: 0, 1: 1, 2: 0, 3: 2}[k]]
        meta = [b for x in used for b in x]
        c.writebytes(f, chunk(c, res, [(meta if w == 0 else []) + [0, 0xFF, 0x2F, 0], (meta if w == 1 else []) + notes]))
        p = gio.fromMidiFile(f)
        c.check("attributes", c.And(p.resolution == res, len(p.events) == 1))
        if metas[0] in used:
            c.check("attributes", c.And(p.timeSignature[0] == num, p.timeSignature[1] == 2 ** c.value(den)))
        else:
            c.check("attributes", tuple(p.timeSignature) == (4, 4))
        if metas[1] in used:
            c.check("attributes", near(c, p.bpm * q / 60, 1000000))
        else:
            c.check("attributes", p.bpm == 120)
        if metas[2] in used:
            i = c.value(a) + 7
            c.check("attributes", p.key == (MINOR[i] + "m" if c.fork(mi == 1) else MAJOR[i]))
        else:
            c.check("attributes", not p.key)
        c.check("attributes", p.name == "in.mid")
        c.observe("bpm", (p.bpm, p.key, p.resolution, tuple(p.timeSignature)))
    else:
        ns = [note(c, str(i)) for i in range(2)]
        c.mkdir(c.path("coll"))
        fs = []
        for i, (nm, n) in enumerate(zip(("a.mid", "b.mid"), ns)):
            g = c.path("coll/" + nm)
            fs.append(g)
            dt = c.int("t%d" % i, 1, 100)
            c.writebytes(g, chunk(c, 96, [text(3, "Kick" if i else "Bass") + [0] + on(n) + [dt] + offs(n, 0) +
                                          [c.int("z%d" % i, 0, 100), 0xFF, 0x2F, 0]]))
        c.writebytes(c.path("coll/c.txt"), [1, 2, 3])
        mp, kw = [({"Kick": [36, 35], "Snare": 38}, {}), ({"Kick": 36}, {"filterOutNotMapped": False}),
                  ({"Kick": 1}, {"tagFromTrackName": True, "tracksToGet": [0]})][P["k"]]
        given = copy_map(mp)
        got = gio.fromMidiCollection(c.path("coll/*.mid"), given, **kw)
        c.check("untouched", given == mp)
        c.check("collection", len(got) == 2)
        got = {p.name: p for p in got}
        c.check("collection", sorted(got) == ["a.mid", "b.mid"])
        for g, nm in zip(fs, ("a.mid", "b.mid")):
            c.check("collection", same(c, got[nm], gio.fromMidiFile(g, mp, **kw)))
        if P["length"]:
            # cut in lengths: what cutting the import of each file gives
            cut = gio.fromMidiCollection(c.path("coll/*.mid"), given, desiredLength=P["length"], **kw)
            exp = [q for g in fs for q in gio.fromMidiFile(g, mp, **kw).splitInEqualLengthPatterns(P["length"])]
            if not [x for x in cut if x.name and x.name.startswith("a.mid")] or cut[0].name.startswith("a.mid"):
                c.check("collection", len(cut) == len(exp))
                for a, b in zip(cut, exp):
                    c.check("collection", c.And(same(c, a, b), a.startTime == b.startTime))
            else:
                c.check("collection", len(cut) == len(exp))
        again = gio.fromMidiCollection(c.path("coll/*.mid"), given, **kw)
        c.check("collection", len(again) == 2)
        c.observe("got", [flats(got[k]) for k in sorted(got)])
