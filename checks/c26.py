"""C26 note and chord tables and spelling helpers"""
from .lib import *

LABELS = ["spelled", "sounds", "untouched", "sharp-flat", "position", "alt", "name", "notemap", "keys", "drums"]
BOUNDS = {
    "quick": "every chord type of the two tables and every base-40 root from -200 to 400; structures of one interval "
             "0..80 and of two intervals 0..6; pitch classes -120..240; pitches 0..127 with 12 names, 0..300 with "
             "lists of 5 to 24 names, several in turn; all entries of the tables",
    "thorough": "roots -2000 to 4000; structures of up to four intervals; pitches up to 2000",
}
OUTSIDE = "negative pitches; lists of names that repeat a name"

LETTER = {"C": (2, 0), "D": (8, 2), "E": (14, 4), "F": (19, 5), "G": (25, 7), "A": (31, 9), "B": (37, 11)}
ALT = {-2: "bb", -1: "b", 0: "", 1: "#", 2: "##"}
# Hewlett's number line: a letter's natural and two alterations on either side; six positions name nothing
NAMES = dict((b + a, l + s) for l, (b, _) in LETTER.items() for a, s in ALT.items())
PCS = dict((l + s, (pc + a) % 12) for l, (_, pc) in LETTER.items() for a, s in ALT.items())
TYPES = ["0", "5", "maj(omit5)", "min(omit5)", "d5", "maj", "min", "aug", "dim", "sus4", "sus2", "7", "7sus4", "maj7",
         "min7", "min(maj7)", "min7(b5)", "dim7", "6", "min6", "add9", "min(add9)", "add11", "min(add11)", "add#11",
         "min(add#11)", "9", "maj9", "min9", "11", "maj11", "min11", "#11", "maj#11", "min#11"]


def cases(tier):
    quick = tier == "quick"
    for t in TYPES:
        yield {"op": "chord", "type": t, "lim": 200 if quick else 2000}
    for op in ("tables", "keys", "notemap"):
        yield {"op": op}
    yield {"op": "one", "lim": 200 if quick else 2000}
    for k in ([2] if quick else [2, 3, 4]):
        yield {"op": "many", "k": k, "hi": {2: 6, 3: 4, 4: 2}[k]}
    for alt in ("#", "b"):
        yield {"op": "pc", "alt": alt}
        yield {"op": "pitch", "alt": alt}
    yield {"op": "alt"}
    yield {"op": "default"}
    for n in (5, 7, 10, 12, 19, 24):
        yield {"op": "names", "n": n, "hi": 300 if quick else 2000}


def moved(name, k):
    """The note an interval of k (base 40, up to an octave and more) above the note called name, by letters and
    semitones; None where that takes more than two alterations."""
    up = NAMES.get(2 + k % 40 if k % 40 < 38 else k % 40 - 38)
    if up is None:
        return None
    i = ("CDEFGAB".index(name[0]) + "CDEFGAB".index(up[0])) % 7
    alt = (PCS[name] + PCS[up] - LETTER["CDEFGAB"[i]][1] + 6) % 12 - 6
    return "CDEFGAB"[i] + ALT[alt] if alt in ALT else None


def spelled(c, root, ints, got):
    """got are the names at root and at every interval on top of it."""
    pos, ok = c.value(root % 40), len(got) == len(ints) + 1
    for k, name in zip([0] + list(ints), got):
        pos = c.value((pos + k) % 40)
        ok = ok and name == NAMES.get(pos, "")
    return ok


def run(c, P):
    gd, gu = c.mod("gsdefs"), c.mod("gsutil")
    op = P["op"]
    if op == "chord":
        root = c.int("root", -P["lim"], 2 * P["lim"])
        ints = gd.chordIntervals[P["type"]]
        before = list(ints)
        got = gu.makeChord(root, ints)
        c.check("spelled", spelled(c, root, before, got))
        c.check("untouched", gd.chordIntervals[P["type"]] == before)
        semis = gd.chordTypes.get(P["type"])
        if semis is not None and got[0]:
            c.check("sounds", len(semis) == len(got))
            total = 0
            for name, k, s in zip(got, [0] + before, semis):
                total += k
                want = moved(got[0], total)
                if want:
                    c.check("sounds", name == want and PCS[name] == (PCS[got[0]] + s) % 12)
        c.observe("names", got)
    elif op == "tables":
        shared = [t for t in sorted(gd.chordIntervals) if t in gd.chordTypes]
        t = c.choice("t", shared)
        # the base-40 interval from C of a note and the note's height in semitones
        height, total = [0], 0
        for k in gd.chordIntervals[t]:
            total += k
            pos = 2 + total % 40
            name = NAMES.get(pos % 40)
            height.append(12 * (total // 40) + 12 * (pos >= 40) + PCS[name] - (12 if name == "B#" else 0))
        c.check("sounds", height == list(gd.chordTypes[t]))
    elif op == "keys":
        k = c.choice("k", list(range(-7, 8)))
        c.check("keys", gd.midiKey.get(k) == NAMES[(2 + 23 * k) % 40])
    elif op == "notemap":
        v = c.value(c.int("p", 0, 127))
        name = ["c", "c#", "d", "d#", "e", "f", "f#", "g", "g#", "a", "a#", "b"][v % 12] + str(v // 12 - 1)
        c.check("notemap", gd.noteMap.get(name) == v)
        c.check("notemap", len(gd.noteMap) == 128)
        for m in (gd.generalMidiDrums, gd.simpleDrumMap, gd.verySimpleDrumMap):
            c.check("drums", len(set(m.values())) == len(m) and all(0 <= x <= 127 for x in m.values()))
        c.check("drums", all(gd.simpleDrumMap.get(x) == y for x, y in gd.verySimpleDrumMap.items()))
    elif op in ("one", "many"):
        if op == "one":
            root, ints = c.int("root", -P["lim"], 2 * P["lim"]), [c.int("k", 0, 80)]
        else:
            root = c.int("root", 0, 39)
            ints = [c.int("k%d" % i, 0, P["hi"]) for i in range(P["k"])]
        mine = list(ints)
        got = gu.makeChord(root, mine)
        c.check("spelled", spelled(c, root, ints, got))
        c.check("untouched", c.eq(mine, ints))
        if op == "many":   # other chords of the same root and height, and the same one again
            c.check("spelled", spelled(c, root, ints[::-1], gu.makeChord(root, ints[::-1])))
            c.check("spelled", spelled(c, root, [c.Sum(ints)], gu.makeChord(root, [c.Sum(ints)])))
            again = list(got)
            got.reverse()
            c.check("spelled", gu.makeChord(root, mine) == again)
        c.observe("names", got)
    elif op == "pc":
        pc = c.int("pc", -120, 240)
        name = gu.pc2note(pc, P["alt"])
        c.check("sharp-flat", name in PCS and PCS[name] == c.value(pc % 12) and name[1:] in ("", P["alt"]))
        c.check("position", NAMES.get(gu.pc2base40(pc, P["alt"])) == name)
        if P["alt"] == "#":
            c.check("sharp-flat", gu.pc2note(pc) == name)
            c.check("position", NAMES.get(gu.pc2base40(pc)) == name)
        c.observe("name", name)
    elif op == "alt":
        pc = c.int("pc", -12, 24)
        for a in ("", "n", "##", None):
            c.check("alt", c.raises(gu.pc2note, pc, a) is not None and c.raises(gu.pc2base40, pc, a) is not None)
    elif op == "pitch":
        p = c.int("p", 0, 127)
        names = [gu.pc2note(i, P["alt"]) for i in range(12)]
        got = gu.pitch2name(p, names)
        v = c.value(p)
        c.check("name", got == names[v % 12] + str(v // 12 - 1))
        if P["alt"] == "#":
            c.check("notemap", gd.noteMap.get(got.lower()) == v)
        c.observe("name", got)
    elif op == "default":
        p = c.int("p", 0, 127)
        got = gu.pitch2name(p, gd.defaultPitchNames)
        v = c.value(p)
        i = 2 if got[1:2] in ("#", "b") else 1
        c.check("name", PCS.get(got[:i]) == v % 12 and got[i:] == str(v // 12 - 1))
        c.observe("name", got)
    elif op == "names":
        p = c.int("p", 0, P["hi"])
        names = ["n%d/" % i for i in range(P["n"])]
        got = gu.pitch2name(p, names)
        v = c.value(p)
        c.check("name", got == names[v % P["n"]] + str(v // P["n"] - 1) and len(names) == P["n"])
        # another list of as many names, then the first one with its names changed
        others = ["m%d/" % i for i in range(P["n"])]
        c.check("name", gu.pitch2name(p, others) == others[v % P["n"]] + str(v // P["n"] - 1))
        names.reverse()
        c.check("name", gu.pitch2name(p, names) == names[v % P["n"]] + str(v // P["n"] - 1))
        c.observe("name", got)
