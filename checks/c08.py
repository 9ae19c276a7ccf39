"""C08 lastNoteOff, addEvent, durationToLastEvent, durationToBar"""
from .lib import *

LABELS = ["last", "add", "fit", "shrink", "bar", "notes"]
BOUNDS = {
    "quick": "any note among 20 (durations to the last note: 60) given ones; patterns of up to 3 notes stored in any order, starts [-16,16), durations (0,16], pattern duration [0,32] "
             "symbolic on a grid of 2^-14 beats, equal notes among them; each operation, histories of 2 added notes, numerators 1..7",
    "thorough": "up to 4 notes (starts [0,64), durations (0,64]), histories of 4 added notes, numerators 1..12, "
                "duration up to 256",
}
OUTSIDE = "durations of zero, more notes"


def cases(tier):
    quick = tier == "quick"
    m = 16 if quick else 64
    for op in ("last", "add", "fit", "shrink"):
        yield {"n": 1, "op": op, "m": m, "h": 1, "N": 7, "crowd": 6 if op in ("last", "add") else 20}
    yield {"n": 1, "op": "fit", "m": m, "h": 1, "N": 7, "crowd": 60}
    for n in ((0, 1, 2, 3) if quick else (0, 1, 2, 3, 4)):
        for op in ("last", "add", "fit", "shrink", "bar"):
            if op == "bar" and n > 2:
                continue
            yield {"n": n, "op": op, "m": m, "h": 2 if quick else min(4, 5 - n), "N": 7 if quick else 12}


def run(c, P):
    n, m, op = P["n"], P["m"], P["op"]

    def note(i):
        return (c.grid("s%d" % i, -m * G, m * G - 1, G), c.grid("d%d" % i, 1, m * G, G), 60,
                c.int("v%d" % i, 0, 127), TAGS[0])
    evs = crowd(P, [note(i) for i in range(n)])
    D = c.grid("D", 0, (2 if op != "bar" else 4) * m * G, G)
    num = c.choice("num", list(range(1, P["N"] + 1))) if op == "bar" else 4
    p = mkpattern(c, evs, D, timeSignature=(num, 4))
    ends = [e[0] + e[1] for e in evs]
    if op == "last":
        r = p.lastNoteOff()
        c.check("last", r is None if not evs else r is not None and r == c.Max(ends))
        c.check("last", p.duration == D)
        if n:    # asked again after a note was edited, and after one was exchanged
            i = c.value(c.choice("i", list(range(n)))) + P.get("crowd", 0) // 3
            for k in range(2):
                e = [e for e in p.events if c.fork(c.eq(flat(e), evs[i]))][0]
                evs[i] = (evs[i][0] if k else c.grid("s2", -m * G, m * G - 1, G), c.grid("d2%d" % k, 1, m * G, G)) + evs[i][2:]
                if k:
                    p.events[[x is e for x in p.events].index(True)] = c.mod("gspattern").Event(*evs[i])
                else:
                    e.startTime, e.duration = evs[i][:2]
                c.check("last", p.lastNoteOff() == c.Max([e[0] + e[1] for e in evs]))
            p.durationToLastEvent()
            c.check("fit", p.duration == c.Max([D] + [e[0] + e[1] for e in evs]))
    elif op == "add":
        gp = c.mod("gspattern")
        for k in range(P["h"]):
            e = note(n + k)
            evs.append(e)
            ends.append(e[0] + e[1])
            p.addEvent(gp.Event(*e))
            c.check("add", p.duration == c.Max([D] + ends))
            c.check("last", p.lastNoteOff() == c.Max(ends))
    elif op == "fit":
        p.durationToLastEvent()
        c.check("fit", p.duration == c.Max([D] + ends))
    elif op == "shrink":
        p.durationToLastEvent(onlyIfBigger=False)
        c.check("shrink", p.duration == (c.Max(ends) if ends else D))
    else:
        p.durationToBar()
        c.check("bar", c.And(p.duration >= D, p.duration - num < D))
        c.check("bar", p.duration / num == c.floor(p.duration / num))
    if "crowd" in P and op in ("fit", "shrink"):   # in time order
        c.check("notes", c.eq(flats(p), sorted(evs, key=lambda e: e[0])))
    c.check("notes", len(p.events) > 20 or c.multiset_eq(flats(p), evs))
    c.observe("out", (p.duration, flats(p)))
