"""C19 Chord recognition"""
from .lib import *

LABELS = ["spelling", "triad", "duplicates", "silence", "untouched"]
BOUNDS = {
    "quick": "every chord type of the table on every root, every note in any octave 0..8 (chords of more than 4 notes: "
             "of any two neighbouring octaves; all inversions and voicings), "
             "written upwards or downwards, one common length and any pattern duration (both symbolic on a grid of 2^-14 beats up "
             "to 16 beats), after another chord was recognised",
    "thorough": "any octave for every note, any rotation of the note order as well, up to 2 silent notes added",
}
OUTSIDE = ("notes of different lengths, doubled notes, patterns of duration 0; sums of doubles are modelled exactly "
           "(equally long notes make the sums of equal candidates identical)")


def cases(tier):
    quick = tier == "quick"
    # the table is read when the check runs; unknown indices are skipped
    for t in range(40):
        for op in ("best", "dups"):
            for order in ((1 if t % 2 == (op == "dups") else -1,) if quick else (1, -1, 2, 3)):
                yield {"op": op, "t": t, "order": order, "sil": 0 if quick else 2, "far": not quick}
    for mode in ("maj", "min"):
        for order in (1, -1, 2, 3):
            yield {"op": "triad", "mode": mode, "order": order}
    yield {"op": "silence"}


def run(c, P):
    gd, defs = c.mod("gsdescriptors"), c.mod("gsdefs")
    names, types = list(defs.defaultPitchNames), dict(defs.chordTypes)
    op = P["op"]
    if op != "silence":
        # whatever was recognised before, by whichever recogniser
        old = mkpattern(c, [(0, 1, 60, 80, "x"), (0, 2, 64, 80, "x"), (1, 2, 67, 80, "y"), (0, 1, 70, 80, "x")], 3)
        for kw in ({"forceMajMin": True}, {"allowDuplicates": True}, {}):
            gd.Chord(**kw).getDescriptorForPattern(old)
    D = c.grid("D", 1, 16 * G, G)
    if op == "silence":
        n = c.value(c.choice("n", [0, 1, 2]))
        evs = [(0, c.grid("d%d" % i, 1, 16 * G, G), c.int("p%d" % i, 0, 127), 80, "silence") for i in range(n)]
        for kw in ({}, {"forceMajMin": True}, {"allowDuplicates": True}):
            c.check("silence", gd.Chord(**kw).getDescriptorForPattern(mkpattern(c, evs, D)) == "silence")
        return
    known = list(types)
    if op == "triad":
        name = P["mode"]
    else:
        if P["t"] >= len(known):
            c.check("spelling", True)
            return
        name = known[P["t"]]
    ivs = sorted(set([0] + [i % 12 for i in types[name]]))
    root = c.value(c.int("root", 0, 11))
    d = c.grid("d", 1, 16 * G, G)
    k = P["order"]
    ivs = ivs[::-1] if k == -1 else ivs[k - 1:] + ivs[:k - 1]
    near = len(ivs) > 4 and not P.get("far")
    low = c.int("low", 0, 7) if near else 0
    octs = [low + c.int("o%d" % j, 0, 1) if near else c.int("o%d" % j, 0, 8) for j in range(len(ivs))]
    evs = [(0, d, (root + i) % 12 + 12 * o, 80, "x") for o, i in zip(octs, ivs)]
    evs += [(0, 1, 61 + i, 80, "silence") for i in range(P.get("sil", 0))]
    p = mkpattern(c, evs, D)
    spell = set((root + i) % 12 for i in ivs)

    def spells(tag):
        return set((names.index(tag[0]) + i) % 12 for i in [0] + list(types[tag[1]])) == spell
    if op == "triad":
        r = gd.Chord(forceMajMin=True).getDescriptorForPattern(p)
        c.check("triad", tuple(r) == (names[root], name))
    elif op == "best":
        ch = gd.Chord()
        if P["t"] % 3 == 0:
            ch.getDescriptorForPattern(old)
        r = ch.getDescriptorForPattern(p)
        c.check("spelling", len(r) == 2 and spells(r))
    else:
        r = gd.Chord(allowDuplicates=True).getDescriptorForPattern(p)
        c.check("duplicates", len(r) > 0 and all(spells(x) for x in r) and any(x[1] == name for x in r))
    c.check("untouched", c.And(c.eq(flats(p), evs), p.duration == D))
    c.observe("r", r)
