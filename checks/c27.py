"""C27 datasets"""
from .lib import *
from .c16 import chunk, text, on, offs, note, same, copy_map

LABELS = ["files", "patterns", "reimport", "slices", "viewpoint", "index", "untouched"]
BOUNDS = {
    "quick": "folders of 0 to 3 (and 12) matching files among others (other endings, other names, a subfolder), each of 1 or 2 "
             "tracks with up to 2 notes of three pitches and two channels, any velocity and delta times up to 100 ticks (overlapping notes "
             "of one pitch included); 3 maps and the default one, with and without removal of overlaps; the glob given "
             "with and without ending, when created or with any of the later imports; slices of 1 and 2 beats (quarter beat "
             "grid, up to 2.5 beats), also of viewpoints",
    "thorough": "three notes per file",
}
OUTSIDE = "names with letters special to globs; files that change while they are read; note-ons never ended"
STUBS = ", files, folders and glob (in memory), random (any number)"

MAPS = [None, {"Kick": 36, "Snare": [38, 40]}, {"All": ("*", "*")}, "pitchName"]
END = [0, 0xFF, 0x2F, 0]


def cases(tier):
    quick = tier == "quick"
    for files in range(4):
        for how in range(4):
            yield {"op": "import", "files": files, "map": (files + how) % 4, "over": how % 2, "how": how, "n": 1}
    for m in range(4):
        for over in (0, 1):
            yield {"op": "import", "files": 1, "map": m, "over": over, "how": 0, "n": 2}
            if not quick:
                if (m, over) in ((1, 0), (2, 0), (2, 1), (3, 0)):
                    yield {"op": "import", "files": 2, "map": m, "over": over, "how": m, "n": 2}
                yield {"op": "import", "files": 1, "map": m, "over": over, "how": m, "n": 3}
    for how in (0, 2):
        yield {"op": "import", "files": 12, "map": 2, "over": 0, "how": how, "n": 1}
    for how in range(3):
        for files in (1, 2):
            yield {"op": "again", "files": files, "how": how}
    for d in (1, 2):
        for vp in (0, 1):
            for sup in (None, True, False):
                yield {"op": "slices", "d": d, "vp": vp, "sup": sup}
    for sl in (1, "perEvent", "all"):
        yield {"op": "view", "sl": sl}
    yield {"op": "index"}


def song(c, name, n, tracks=1, beats=None):
    """Bytes of a file of n notes."""
    out = []
    for t in range(tracks):
        body = [] if t else text(3, "one")
        for i in range(n):
            m = {"p": c.int("p%s%d%d" % (name, t, i), 36, 38), "c": c.int("c%s%d%d" % (name, t, i), 0, 1),
                 "v": c.int("v%s%d%d" % (name, t, i), 1, 127)}
            if beats is None:
                gap, hold = [c.int("%s%s%d%d" % (k, name, t, i), 0, 100) for k in "gh"]
                c.assume(hold > 0)
                if i % 2:   # begins before the previous one has ended
                    body = body[:-4] + [1] + on(m) + [hold] + body[-3:] + [gap] + offs(m, 0)
                    continue
                body += [gap] + on(m) + [hold] + offs(m, i % 2)
            else:
                gap, hold = c.int("g%s%d%d" % (name, t, i), 0, beats), c.int("h%s%d%d" % (name, t, i), 1, beats - 1)
                body += [16 * gap] + on(m) + [16 * hold] + offs(m, 0)
        out.append(body + END)
    return chunk(c, 64, out)


def folder(c, k, n, beats=None, quiet=False):
    c.mkdir(c.path("d"))
    c.mkdir(c.path("d/sub"))
    paths = []
    for i in range(k):
        f = c.path("d/%s.mid" % (["a2", "a1", "a10"] + ["a%d" % (j + 20) for j in range(9)])[i])
        c.writebytes(f, song(c, "f%d" % i, n, 1 + (i == 1), beats) if i < 1 or k < 4 else
                     chunk(c, 64, [[i, 0x90, 36 + i, 100, 64, 0x80, 36 + i, 64] + END]))
        paths.append(f)
    for x in ("d/a.txt", "d/sub/a3.mid", "d/amid", "d/a2.mid.bak"):
        c.writebytes(c.path(x), [1, 2, 3])
    # a file without notes, a beat and a half long
    if quiet:
        f = c.path("d/a3.mid")
        c.writebytes(f, chunk(c, 64, [[96, 0xFF, 0x2F, 0]]))
    c.writebytes(c.path("d/b.mid"), chunk(c, 64, [[0, 0x99, 36, 100, 64, 0x89, 36, 64] + END]))
    return paths


def alike(c, got, exp):
    """The same patterns; files have no order."""
    if len(got) != len(exp) or sorted(p.name for p in got) != sorted(p.name for p in exp):
        return False
    return c.And(*[same(c, p, q) for p in got for q in exp if p.name == q.name])


def run(c, P):
    gio, gd, gp = c.mod("gsio"), c.mod("gsdataset"), c.mod("gspattern")
    op = P["op"]
    imp = lambda fs, mp, over: [gio.fromMidiFile(f, copy_map(mp), checkForOverlapped=over) for f in fs]
    d = c.path("d")
    if op == "import":
        fs, mp, over, how = folder(c, P["files"], P["n"]), MAPS[P["map"]], bool(P["over"]), P["how"]
        given = copy_map(mp)
        kw = {"checkForOverlapped": over}
        if mp is not None:
            kw["midiMap"] = given
        ds = gd.Dataset(d, "a*" + (".mid" if how % 2 else ""), **kw) if how < 2 else \
            gd.Dataset(midiFolder=d, midiGlob="a*.mid", **kw) if how == 2 else gd.Dataset(d + "/", "a*.mid", **kw)
        ref = c.mod("gsdefs").simpleDrumMap if mp is None else mp
        c.check("files", sorted(ds.files) == sorted(fs))
        c.check("patterns", alike(c, ds.patterns, imp(fs, ref, over)))
        c.check("untouched", c.And(given == mp))
        every = gd.Dataset(d, **kw)
        c.check("files", sorted(every.files) == sorted(fs + [c.path("d/b.mid")]))
        c.check("patterns", alike(c, every.patterns, imp(fs + [c.path("d/b.mid")], ref, over)))
        c.observe("out", [flats(p) for p in ds.patterns], unordered=True)
    elif op == "again":
        fs, how = folder(c, P["files"], 1), P["how"]
        mp = {"All": ("*", "*")}
        ds = gd.Dataset(d, "a*", midiMap=mp)
        b = c.path("d/b.mid")
        for k in range(2):
            got = ds.importMidi()
            c.check("reimport", alike(c, got, imp(fs, mp, True)) if got is ds.patterns else False)
        if how == 0:
            ds.importMidi("b.mid")
            exp = [b]
        elif how == 1:
            ds.setMidiGlob("*")
            ds.importMidi()
            exp = fs + [b]
        else:
            ds.importMidi("nothing")
            c.check("reimport", ds.patterns == [])
            ds.importMidi("a*")
            exp = fs
        c.check("files", sorted(ds.files) == sorted(exp))
        c.check("reimport", alike(c, ds.patterns, imp(exp, mp, True)))
        # a file that came and one that was rewritten
        new = c.path("d/a5.mid")
        c.writebytes(new, song(c, "n", 1))
        c.writebytes(fs[0], song(c, "w", 1))
        ds.importMidi("a*.mid")
        c.check("reimport", alike(c, ds.patterns, imp(fs + [new], mp, True)))
        c.observe("out", [flats(p) for p in ds.patterns], unordered=True)
    elif op in ("slices", "view"):
        folder(c, 2, 1, 5 if op == "slices" else 4, op == "slices")
        mp = {"All": ("*", "*")}
        ds = gd.Dataset(d, "a*", midiMap=mp)
        mine = {p.name: p for p in imp(ds.files, mp, True)}
        if op == "view":
            desc = c.mod("gsdescriptors").NumberOfTags()
            ds.generateViewpoint("v", descriptor=desc, sliceType=P["sl"])
            for p in ds.patterns:
                q = mine[p.name]
                q.generateViewpoint("v", descriptor=desc, sliceType=P["sl"])
                c.check("viewpoint", same(c, p, q) if sorted(p.viewpoints) == sorted(q.viewpoints) == ["v"] else False)
                c.check("viewpoint", c.eq(flats(p.viewpoints["v"]), flats(q.viewpoints["v"])))
            c.observe("out", [flats(p.viewpoints["v"]) for p in ds.patterns], unordered=True)
            return
        kw = {} if P["sup"] is None else {"supressEmptyPattern": P["sup"]}
        name = None
        if P["vp"]:
            name = "v"
            for p in list(mine.values()) + list(ds.patterns):
                p.generateViewpoint("v", descriptor=c.mod("gsdescriptors").NumberOfTags(), sliceType="all")
        got = ds.getAllSliceOfDuration(P["d"], viewpointName=name, **kw)
        exp = []
        for p in ds.patterns:
            exp += mine[p.name].splitInEqualLengthPatterns(P["d"], viewpointName=name,
                                                           supressEmptyPattern=P["sup"] is not False)
        c.check("slices", len(got) == len(exp))
        for a, b in zip(got, exp):
            c.check("slices", b is None if a is None else b is not None and
                    c.And(same(c, a, b), a.startTime == b.startTime))
        c.check("untouched", c.And(*[same(c, p, mine[p.name]) for p in ds.patterns]))
        c.observe("out", [flats(p) for p in got if p is not None], unordered=True)
    else:
        folder(c, 3, 1)
        ds = gd.Dataset(d, "a*", midiMap={"All": ("*", "*")})
        ps = list(ds.patterns)
        i = c.int("i", -5, 5)
        if c.fork(c.And(i >= -3, i < 3)):
            c.check("index", ds[i] is ps[c.value(i)])
        else:
            c.check("index", isinstance(c.raises(lambda: ds[i]), IndexError))
        c.check("index", ds[:2] == ps[:2] and list(ds) == ps and ds[1:] == ps[1:])
        c.observe("out", [flats(p) for p in ds.patterns], unordered=True)
