"""C14 toMidiFile / fromMidiFile round trip"""
from .lib import *

LABELS = ["notes", "count", "duration", "attributes", "tempo", "map", "untouched"]
BOUNDS = {
    "quick": "any note among 20 given ones or beside a chain of 24 of its pitch; patterns of 0 to 3 notes in any order, of equal or different pitches, starts [0,3], durations up to 2, "
             "symbolic on grids finer and coarser than a tick (resolutions 96, 480, 960, 7); one note of any pitch and "
             "velocity; two notes on any of 400 ticks, times in doubles as the import makes them; one note of any velocity, start up to 20000 beats; all 30 keys, 10 tempi, metres up to 12/16; maps of tags to pitches",
    "thorough": "up to 4 notes, starts [0,8], durations up to 4, 24 tempi",
}
OUTSIDE = ("more notes, velocity 0, notes before time 0, tempi below 4, names outside MIDI's letter names; rounding of "
           "times in doubles other than on the first 400 ticks (elsewhere times are exact)")
STUBS = ", files (in memory)"

KEYS = ["Cb", "Gb", "Db", "Ab", "Eb", "Bb", "F", "C", "G", "D", "A", "E", "B", "F#", "C#"]
MINOR = ["Ab", "Eb", "Bb", "F", "C", "G", "D", "A", "E", "B", "F#", "C#", "G#", "D#", "A#"]
BPM = [120, 60, 59.5, 90, 100, 133.25, 174, 240, 4, 999]


def cases(tier):
    quick = tier == "quick"
    grids = [(960, 16), (96, 16), (7, 4)] if quick else [(960, 16), (96, 16), (480, 7), (7, 4), (1, 2), (24, 64)]
    for res, den in grids:
        for n in ((0, 1, 2, 3) if quick else (0, 1, 2, 3, 4)):
            for parts in rgs(n):
                if n == 4 and (res, den) not in ((960, 16), (7, 4)):
                    continue
                if quick and n == 3 and (res == 96 or (res == 960 and parts not in ([0, 0, 0], [0, 1, 0]))):
                    continue
                yield {"op": "notes", "n": n, "pitches": parts, "res": res, "den": den, "m": 3 if quick else 8}
    yield {"op": "notes", "n": 1, "pitches": [0], "res": 960, "den": 16, "m": 3, "crowd": 20}
    yield {"op": "notes", "n": 1, "pitches": [0], "res": 960, "den": 16, "m": 3, "chain": 24}
    for res in (96, 480, 960):    # written and read again, times in doubles
        for k in range(0, 400, 100):
            yield {"op": "again", "res": res, "from": k}
    for res in (96, 960, 32767):
        yield {"op": "one", "res": res, "pitch": None}
        for pitch in (0, 60, 127):
            yield {"op": "one", "res": res, "pitch": pitch}
    yield {"op": "meta", "bpm": BPM if quick else BPM + [10 * k + 0.5 for k in range(1, 15)]}
    yield {"op": "metre"}
    for k in range(3):
        yield {"op": "map", "k": k}


def near(c, a, b, tol):
    return c.And(a - b <= tol, b - a <= tol)


def run(c, P):
    gio = c.mod("gsio")
    op = P["op"]
    kw = {"bpm": 120, "timeSignature": (4, 4), "key": "Am", "name": "song"}
    res, den, exp = P.get("res", 480), P.get("den", 4), {}
    if op == "notes":
        n, m = P["n"], P["m"]
        evs = [(c.grid("s%d" % i, 0, m * den, den), c.grid("d%d" % i, 1, 2 * den, den), 60 + v, 10 + i, TAGS[v])
               for i, v in enumerate(P["pitches"])]
        if "crowd" in P:
            evs = [e[:2] + (60 + i, 10 + i, e[4]) for i, e in enumerate(crowd(P, evs, TAGS, 4))]
        if "chain" in P:    # of notes of the same pitch, each starting where the one before it ends
            k = P["chain"]
            evs = [(4 + i, 1, 60, 20 + i, TAGS[i % 2]) for i in range(k)][::-1] + evs
            D = k + 4 + c.grid("D", 0, 4 * den, den)
        else:
            D = c.grid("D", 0, (m + 4) * den, den)
        for e in evs:
            c.assume(e[0] + e[1] <= D)
    elif op == "again":
        k = c.value(c.int("tick", P["from"], P["from"] + 99))
        t = 1.0 / res    # times as the import makes them
        evs = [(k * 1.0 * t, (k + 1) * 1.0 * t - k * 1.0 * t, 60, 80, "x"), ((k + 1) * 1.0 * t, (3 * k + 2) * t - (k + 1) * t, 60, 81, "x")]
        D = (3 * k + 7) * t
    elif op == "one":
        k = 1 if res < 1000 else 16  # the whole pattern within 28 bits of ticks
        big = P["pitch"] is not None
        evs = [(c.grid("s", 0, 20000 // k * 8, 8) if big else 1, c.grid("d", 1, 5000 // k * 8, 8) if big else 1,
                P["pitch"] if big else c.int("p", 0, 127), c.int("v", 1, 127), "x")]
        D = 30000 // k
    elif op == "map":
        evs = [(c.grid("s%d" % i, 0, 8, 4), c.grid("d%d" % i, 1, 8, 4), 60 + i, 10 + i,
                c.choice("t%d" % i, ["Kick", "Snare", ("Kick", "x"), "other", ()])) for i in range(2)]
        D = 4
    else:
        evs, D = [(0, 1, 60, 80, "x")], 4
        if op == "meta":
            kw["bpm"] = c.choice("bpm", P["bpm"])
            kw["key"] = c.choice("key", KEYS + [k + "m" for k in MINOR] + [None])
            kw["name"] = c.choice("name", ["song", "my.song"])
        else:
            kw["timeSignature"] = (c.int("num", 1, 12), c.choice("den", [1, 2, 4, 8, 16]))
    pitch = [e[2] for e in evs]
    if op == "map":
        exp = [{"Kick": 36, "Snare": 38}, {"Kick": 127, "Snare": 0, ("Kick", "x"): 5}, {}][P["k"]]
        for i, e in enumerate(evs):
            t = c.value(e[4])
            pitch[i] = exp.get(t, exp.get(t[0], e[2]) if isinstance(t, tuple) and t else e[2])
    tick = 1 / res
    # exact when every time is on a tick
    tol = 1e-6 * tick if op == "again" or res % den == 0 else tick
    for i, a in enumerate(evs):
        c.assume(op == "again" or a[1] * res >= 1)
        for j in range(i):
            if op not in ("one", "again") and pitch[i] == pitch[j]:
                b = evs[j]
                c.assume(c.Or(a[0] + a[1] <= b[0], b[0] + b[1] <= a[0]))
    p = mkpattern(c, evs, D, **kw)
    p.resolution = res
    f = gio.toMidiFile(p, folderPath=c.path("midi"), **({"midiMap": exp} if op == "map" else {}))
    c.check("untouched", c.And(c.eq(flats(p), evs), p.duration == D))
    q = gio.fromMidiFile(f)
    c.check("count", len(q.events) == len(evs))
    left = list(q.events)
    for i, e in enumerate(evs):
        cand = [g for g in left if op == "one" or c.fork(g.velocity == e[3])]
        c.check("count", len(cand) == 1)
        for g in cand:
            left.remove(g)
            c.check("notes" if op != "map" else "map", g.pitch == pitch[i])
            c.check("notes", c.And(g.velocity == e[3], near(c, g.startTime, e[0], tol),
                                   near(c, g.startTime + g.duration, e[0] + e[1], tol)))
    c.check("duration", near(c, q.duration, D, tol))
    ts = kw["timeSignature"]
    c.check("attributes", c.And(c.eq(tuple(q.timeSignature), ts), q.resolution == res))
    c.check("attributes", q.key == kw["key"] if kw["key"] else not q.key)
    c.check("tempo", near(c, 6e7 / q.bpm, 6e7 / kw["bpm"], 1))
    if op in ("notes", "map"):
        c.observe("out", sorted(flats(q), key=lambda f: c.value(f[3])))
