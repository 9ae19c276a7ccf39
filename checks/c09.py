"""C09 removeEvent, removeByTags"""
from .lib import *

LABELS = ["gone", "kept", "absent"]
BOUNDS = {
    "quick": "any note among 16 given ones; up to 3 notes; removing an event: starts, durations, pitches, velocities symbolic in small ranges (so "
             "any may coincide), tags one of two (names, compounds that share a name, empty ones), the event foreign or the pattern's own; removing by tags: each note "
             "tagged with any of 4 tags (names, one contained in another, and compounds), any subset of 4 tags asked, and one tag or a set given plainly; the same with untagged notes and empty or false tags",
    "thorough": "up to 4 notes",
}
OUTSIDE = "more notes"

CH = ["Conga", "LowConga", ("C", "maj"), ("Conga", "maj")]
ASK = ["Conga", "maj", "LowConga", "o"]
CH2 = [(), None, 0, ("", 0)]
ASK2 = [(), None, 0, ""]

PLAIN = ["Conga", "maj", 3, None, "", {"maj", 3}]    # one tag, or a set of them


def cases(tier):
    for mode in ("foreign", "own"):
        yield {"n": 1, "mode": mode, "f": 0, "crowd": 16}
    for k in (1, 2, 3):
        yield {"n": 1, "mode": "tags", "k": k, "crowd": 16}
    for n in ((0, 1, 2, 3) if tier == "quick" else (0, 1, 2, 3, 4)):
        for mode in ("foreign", "own"):
            if mode == "own" and n == 0:
                continue
            for f in range(3 if 0 < n < 3 else 1):
                yield {"n": n, "mode": mode, "f": f if n < 3 else 1}
        for k in range(1, 1 << len(ASK2)):
            if n in (1, 2):
                yield {"n": n, "mode": "tags", "k": k, "f": 1}
        for k in range(len(PLAIN)):
            if n in (1, 2):
                yield {"n": n, "mode": "tags", "plain": k}
        for k in range(1 << len(ASK)):
            if n <= 2 or (tier != "quick" and n == 3) or bin(k).count("1") <= 2 - (n > 3):
                yield {"n": n, "mode": "tags", "k": k}


def run(c, P):
    gp = c.mod("gspattern")
    n, mode = P["n"], P["mode"]
    if mode == "tags":
        if "plain" in P:
            arg = PLAIN[P["plain"]]
            ask = list(arg) if isinstance(arg, set) else [arg]
            tags = [c.choice("t%d" % i, CH + [3, None, "C", "o", ""]) for i in range(n)]
        else:
            arg = ask = [a for i, a in enumerate(ASK2 if P.get("f") else ASK) if P["k"] >> i & 1]
            tags = [c.choice("t%d" % i, CH2 if P.get("f") else CH) for i in range(n)]
        evs = [(c.grid("s%d" % i, 0, 4 * G, G), 1, 60, 100 + i, t) for i, t in enumerate(tags)]
        evs = crowd(P, evs, CH)
        p = mkpattern(c, evs, 8)
        p.removeByTags(arg)

        def hit(t):
            return any(t == a or (isinstance(t, tuple) and a in t) for a in ask)
        want = [e for e in evs if not hit(c.value(e[4]))]
        got = flats(p)
        c.check("gone", all(not hit(c.value(e[4])) for e in got))
        c.check("kept", c.eq(got, want))
        c.observe("out", got)
        return

    def note(i, tag):
        return (c.grid("s%s" % i, 0, 4, 4), c.grid("d%s" % i, 1, 3, 4), c.int("p%s" % i, 60, 62),
                c.int("v%s" % i, 79, 80), tag)
    tags = FAMILIES[P["f"]]
    evs = [note(i, c.choice("t%d" % i, tags[:2])) for i in range(n)]
    if "crowd" in P:    # several of them equal
        evs = [((i % 2) / 4, 0.5, 60 + i % 3 // 2, 79 + i % 5 // 3, tags[i % 4 // 3]) for i in range(P["crowd"])] + evs
        n = len(evs)
    p = mkpattern(c, evs, 8)
    if mode == "own":
        i = c.choice("which", list(range(n)))
        x, target = evs[i], p.events[i]
    else:
        x = note("x", tags[0])
        target = gp.Event(*x)
    before = list(p.events)
    p.removeEvent(target)
    for e in p.events:
        c.check("gone", c.Not(c.eq(flat(e), x)))
    # what stays is a subsequence of the very same notes, unchanged
    pos = [i for i, e in enumerate(before) if any(e is o for o in p.events)]
    c.check("kept", len(pos) == len(p.events) and c.eq(flats(p), [evs[i] for i in pos]))
    c.check("kept", all(before[i] is e for i, e in zip(pos, p.events)))
    for i, e in enumerate(evs):
        if i not in pos:
            c.check("kept", c.eq(e, x))
    c.check("absent", c.Implies(c.And(*[c.Not(c.eq(e, x)) for e in evs]), len(p.events) == n))
    c.observe("out", flats(p))
