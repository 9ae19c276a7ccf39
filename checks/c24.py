"""C24 bass rhythm codes and onsets"""
from .lib import *

LABELS = ["grid", "codes", "dictionary", "back", "file"]
BOUNDS = {
    "quick": "any onset among 24 given ones in 10 beats; up to 4 onsets anywhere on a 1/96 beat grid from before the start to half a beat past the end, rhythms of 1 to 3 beats (the "
             "number of beats an integer or the duration of a pattern, also one that is no whole number); each of the 16 "
             "codes and every rhythm of 1 and 2 beats on the sixteenth grid; the dictionary in memory and in its file; "
             "bass lines of 2 beats generated from every code",
    "thorough": "up to 5 onsets, 4 beats; every rhythm of 3 beats",
}
OUTSIDE = "onsets exactly between two sixteenths may go to either; other resolutions than sixteenths"
STUBS = ", numpy's arrays (objects), files and JSON (in memory)"


def cases(tier):
    quick = tier == "quick"
    for beats in (1, 2, 3) if quick else (1, 2, 3, 4):
        for n in range(0, 4 if quick else 5):
            if n < 3 or beats < 3:
                yield {"op": "onsets", "n": n, "beats": beats, "kind": n % 3}
    if not quick:
        yield {"op": "onsets", "n": 5, "beats": 1, "kind": 0}
    for kind in (0, 1, 2):
        yield {"op": "onsets", "n": 1, "beats": 10, "kind": kind, "given": 24}
    for beats in (1, 2) if quick else (1, 2, 3):
        yield {"op": "exact", "beats": beats}
    yield {"op": "dict"}
    for mode in ("free", "variation"):
        yield {"op": "line", "mode": mode}


def sixteenth(c, d):
    """Which sixteenths of the beat an onset d beats into it may go to."""
    err = [c.If(d > k / 4, d - k / 4, k / 4 - d) for k in range(4)]
    return [c.And(*[err[k] <= e for e in err]) for k in range(4)]


def run(c, P):
    bm = c.mod("bassmine")
    op = P["op"]
    if op == "onsets":
        n, beats = P["n"], P["beats"]
        on = [c.grid("o%d" % i, -96 * beats - 48, 96 * beats + 48, 96) for i in range(n)]
        on = on + [i * 7 % (8 * beats) / 8 for i in range(P.get("given", 0))]
        total = beats if P["kind"] == 0 else float(beats) if P["kind"] == 1 else beats - 0.375
        r = bm.binaryBeatPattern(list(on), total)
        c.check("grid", len(r) == beats and all(len(row) == 4 for row in r))
        may = [sixteenth(c, o - c.floor(o)) for o in on]
        cells = []
        for b in range(beats):
            for k in range(4):
                v = r[b][k]
                there = [c.And(o >= b, o < b + 1, m[k]) for o, m in zip(on, may)]
                only = [c.And(t, *[c.Not(m[j]) for j in range(4) if j != k]) for t, m in zip(there, may)]
                c.check("grid", c.Or(v == 0, v == 1))
                c.check("grid", c.And(c.Implies(v == 1, c.Or(*there) if there else False),
                                      c.Implies(c.Or(*only) if only else False, v == 1)))
                cells.append(v)
        for o, m in zip(on, may):   # no onset gets lost
            c.check("grid", c.Implies(c.And(o >= 0, o < beats), c.Or(*[c.And(o >= b, o < b + 1, m[k], r[b][k] == 1)
                                                        for b in range(beats) for k in range(4)])))
        codes = bm.translate_rhythm(r)
        c.check("codes", c.eq(list(codes), [8 * cells[4 * b] + 4 * cells[4 * b + 1] + 2 * cells[4 * b + 2] + cells[4 * b + 3]
                                            for b in range(beats)]))
        c.observe("codes", [int(x) for x in codes])
    elif op == "exact":
        beats = P["beats"]
        bits = [c.value(c.int("b%d" % i, 0, 1)) for i in range(4 * beats)]
        on = [i / 4 for i, x in enumerate(bits) if x]
        codes = bm.translate_rhythm(bm.binaryBeatPattern(on[::-1], beats))
        d = bm.createMarkovGenerationDictionary()["patterns"]
        c.check("back", [b + s for b, k in enumerate(codes) for s in d[k]] == on)
        back = bm.translate_rhythm([bits[4 * b:4 * b + 4] for b in range(beats)])
        c.check("back", list(codes) == list(back))
        c.observe("codes", [int(x) for x in codes])
    elif op == "dict":
        k = c.value(c.int("k", 0, 15))
        d = bm.createMarkovGenerationDictionary()
        want = [i / 4 for i in range(4) if k >> (3 - i) & 1]
        c.check("dictionary", sorted(d["patterns"]) == list(range(16)) and list(d["patterns"][k]) == want)
        c.check("codes", list(bm.translate_rhythm(bm.binaryBeatPattern(d["patterns"][k], 1))) == [k])
        c.check("dictionary", bm.MarkovModel(16).model_dictionary["patterns"][k] == want)
        c.mkdir(c.path("out"))
        bm.createMarkovGenerationDictionary(True, c.path("out") + "/")
        with_file = bm.createMarkovGenerationDictionary(toJSON=True, _path=c.path("out") + "/")
        c.check("dictionary", with_file["patterns"][k] == want)
        c.check("file", c.readjson(c.path("out/pattern_dict.json"))["patterns"][str(k)] == want)
        c.observe("d", d["patterns"][k])
    else:
        a, b = c.value(c.int("a", 0, 15)), c.value(c.int("b", 0, 15))
        c.mkdir(c.path("output"))
        m = bm.MarkovModel(16)
        m.add_temporal([a, b, a, b])
        m.normalize_model()
        line = bm.generateBassRhythm(m, 2)
        if P["mode"] == "variation":
            c.assume(a != 0)
            line = bm.generateBassRhythmVariation(m, line, [1, -1])
        want = [i / 4 for i in range(4) if a >> (3 - i) & 1] + [1 + i / 4 for i in range(4) if b >> (3 - i) & 1]
        c.check("back", [e.startTime for e in line.events] == want and line.duration == 2)
        c.check("back", bm.translate_rhythm(bm.binaryBeatPattern([e.startTime for e in line.events], line.duration)) == [a, b])
        c.observe("line", flats(line))
