"""C30 finding files by suffix and pairing them by name"""
from .lib import *
from .c16 import chunk

LABELS = ["search", "missing", "match", "strip", "pairs", "untouched"]
BOUNDS = {
    "quick": "40 files, one of them of another kind; two folders (one with brackets in its name) holding any of 7 files (names with several dots, no suffix, upper case, a hidden one), searched with no suffix, one "
             "or a list of up to 3, the folder given with or without a slash at its end, single files, lists of both; names "
             "of 9 kinds (contained in each other, with dots, brackets, stars) matched against lists of up to 3 of them, with "
             "and without folders (up to 2) and suffixes; suffixes of 6 kinds stripped from 7 names; corpora of up to 3 bass lines and "
             "3 drum files of any of 4 names",
    "thorough": "lists of up to 4 names, corpora of up to 4 pairs",
}
OUTSIDE = "folders within the folder, hidden files, links"
STUBS = ", files, glob and os.path (in memory)"

FILES = ["a.mid", "A.mid", "a.midi", "c.txt", "d", "E.MID", "a[1].mid"]
SUF = [None, ".mid", ".midi", "mid", "", ".MID", [".mid"], [".mid", ".txt"], [".mid", "d", ".mid"], [], "[1].mid", "*.mid", ["[1].mid", "?"]]
NAMES = ["song", "song2", "a song", "song.mid", "song.v2", "so[n]g", "s*g", "Song", "x.mid.mid"]


def cases(tier):
    for i in range(len(SUF)):
        yield {"op": "search", "suf": i}
    for i in range(len(NAMES)):
        for n in ((0, 1, 2, 3) if tier == "quick" else (0, 1, 2, 3, 4)):
            yield {"op": "match", "name": i, "n": n}
    yield {"op": "strip"}
    yield {"op": "many"}
    for n in ((0, 1, 2, 3) if tier == "quick" else (0, 1, 2, 3, 4)):
        for k in range(2 if n else 1):
            yield {"op": "pairs", "n": n, "slash": k}


def has(name, suf):
    return suf is None or any(name.endswith(s) for s in (suf if isinstance(suf, list) else [suf]))


def run(c, P):
    gu = c.mod("gsutil")
    op = P["op"]
    if op == "search":
        suf = SUF[P["suf"]]
        root, X = {}, ["x", "x[1]"][P["suf"] % 2]
        for d in (X, "y"):
            c.mkdir(c.path(d))
            root[d] = [f for i, f in enumerate(FILES if d == X else FILES[:2])
                       if c.fork(c.int("%s%d" % (d, i), 0, 1) == 1)]
            for f in root[d]:
                c.writebytes(c.path(d, f), [1])
        slash = c.choice("slash", ["", "/"])
        short = lambda l: [f.replace(c.path(X) + slash + "/", "x/").replace(c.path(X) + "/", "x/").replace(c.path("y") + "/", "y/") for f in l]
        l = gu.search_files(c.path(X) + slash, suf)
        want = sorted("x/" + f for f in root[X] if has(f, suf))
        c.check("search", short(l) == want)
        if root[X]:
            one = c.path(X, root[X][0])
            c.check("search", gu.search_files(one, suf) == ([one] if has(one, suf) else []))
            given = [c.path("y"), one, c.path(X), one]
            l = gu.search_files(given, suf)
            want = sorted([c.path(X, f) for f in root[X] if has(f, suf)] + [c.path("y", f) for f in root["y"] if has(f, suf)])
            c.check("search", l == want)
            c.check("untouched", given == [c.path("y"), one, c.path(X), one])
        c.check("search", gu.search_files([], suf) == [])
        e = c.raises(gu.search_files, c.path("no"), suf)
        c.check("missing", isinstance(e, IOError))
        c.check("untouched", suf == SUF[P["suf"]])
        c.observe("files", short(l))
    elif op == "many":
        c.mkdir(c.path("x"))
        k = c.value(c.int("k", 0, 40))
        names = ["f%02d.%s" % (i, "mid" if i != k else "txt") for i in range(40)]
        for x in names[::-1]:
            c.writebytes(c.path("x", x), [1])
        l = gu.search_files(c.path("x"), ".mid")
        c.check("search", l == sorted(c.path("x", x) for x in names if x[-3:] == "mid"))
        c.check("search", len(gu.search_files(c.path("x"))) == 40)
        got = gu.match_files("in/f%02d_b.mid" % k, [x[:3] + "_b" + x[3:] for x in names], ".mid", ".mid")
        c.check("match", got == [])
        got = gu.match_files("f07.mid", names + ["o/f07.mid"], ".mid", ".mid")
        c.check("match", got == ["f07.mid"] * (k != 7) + ["o/f07.mid"])
        c.observe("l", [x[-7:] for x in l])
    elif op == "match":
        name, n = NAMES[P["name"]], P["n"]
        folder = c.choice("folder", ["", "in/", "/abs/dir/"])
        s1 = c.choice("s1", [None, ".mid"])
        s2 = c.choice("s2", [None, ".mid"])
        full = folder + name + (s1 or "")
        # three names of the universe that are close to the one looked for, and itself
        pool = [name, NAMES[(P["name"] + 1) % len(NAMES)], NAMES[P["name"] - 1], "z" + name, name + ".mid", "song"]
        if n > 2:
            pool = pool[:2] + pool[3:4]
        l = [(c.choice("l%d" % i, ["", "o/"]) if n < 3 else "") + c.choice("n%d" % i, pool) +
             (c.choice("e%d" % i, ["", ".mid"]) if n < 4 else "") for i in range(n)]
        keep = list(l)
        got = gu.match_files(full, l, s1, s2)
        base = lambda f, s: (f[:-len(s)] if s and f.endswith(s) else f).split("/")[-1]
        want = [f for f in l if base(f, s2) == base(full, s1) and (s2 is None or f.endswith(s2))]
        c.check("match", got == want)
        c.check("untouched", l == keep)
        c.observe("got", got)
    elif op == "strip":
        name = c.choice("name", ["", "a", "a.mid", ".mid", "a.mid.mid", "a.midi", "x/a.mid"])
        suf = c.choice("suf", [None, "", ".mid", "mid", ".midi", "a.mid"])
        got = gu.strip_suffix(name, suf)
        n = len(suf or "")
        c.check("strip", got == (name[:len(name) - n] if suf is not None and name.endswith(suf) else name))
        c.check("strip", gu.strip_suffix(name) == name)
        c.observe("got", got)
    else:
        bm, n = c.mod("bassmine"), P["n"]
        titles = ["one", "one two", "two", "o[n]e"][:max(n, 1)]
        bass = [t for i, t in enumerate(titles) if n and c.fork(c.int("b%d" % i, 0, 1) == 1)]
        drum = [t for i, t in enumerate(titles) if n and c.fork(c.int("d%d" % i, 0, 1) == 1)]
        code = {t: 8 >> i for i, t in enumerate(titles)}
        for d, l, pitch in (("bass", bass, 40), ("drums", drum, 36)):
            c.mkdir(c.path(d))
            for t in l:
                i = titles.index(t)
                body = [24 * i, 0x90, pitch, 100, 6, 0x80, pitch, 0, 96 - 24 * i - 6, 0xFF, 0x2F, 0]
                c.writebytes(c.path(d, "%s_%s.mid" % (d, t)), chunk(c, 96, [body]))
        c.writebytes(c.path("bass", "notes.txt"), [1])
        end = "/" if P["slash"] else ""
        m, ks = bm.corpus_analysis(c.path("bass") + end, c.path("drums") + end)
        both = [t for t in bass if t in drum]
        c.check("pairs", len(ks) == len(both))
        c.check("pairs", sorted(k.name for k in ks) == sorted("drums_%s.mid" % t for t in both))
        for x in range(16):
            c.check("pairs", m.support_initial[x] == sum(code[t] == x for t in both))
            for y in range(16):
                c.check("pairs", m.support_interlocking[x, y] == sum(x == y == code[t] for t in both))
        c.observe("out", [m.support_initial.tolist(), m.support_interlocking.tolist()])
