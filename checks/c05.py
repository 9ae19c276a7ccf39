"""C05 alignOnGrid, cutInSteps"""
from .lib import *

LABELS = ["ongrid", "length", "unique", "filled", "nosteal", "content", "cut"]
BOUNDS = {
    "quick": "any note among 12 given ones; up to 2 notes (starts [-2,4], durations (0,3], grid of 2^-14 beats; ordinary, silence or a compound with it), symbolic pattern "
             "duration up to 6 beats, steps 1, 0.5, 0.25, 2; cutInSteps of one note of up to 6 beats",
    "thorough": "up to 3 notes, starts [0,8]",
}
OUTSIDE = "steps that are not powers of two, more notes"


def cases(tier):
    steps = (1, 0.5, 0.25, 2)
    for kind in (0, 1):
        yield {"what": "align", "n": 1, "step": 0.5, "kinds": [kind], "rep": None, "md": 2, "ms": 4, "crowd": 12}
    for n in ((1, 2) if tier == "quick" else (1, 2, 3)):
        for st in steps:
            for rep in ([None, ["rest", "silence"]] if n < 3 else [None]):
                for kinds in ([[0], [1], [3]] if n == 1 else [[0, 0], [0, 1], [1, 1], [0, 2]] if n == 2 else
                              [[0, 0, 0], [0, 0, 1], [0, 1, 1], [0, 0, 2], [0, 1, 2]]):
                    if rep and kinds.count(1) == 0:
                        continue
                    if st == 0.25 and kinds.count(1) > 1:
                        continue
                    yield {"what": "align", "n": n, "step": st, "kinds": kinds, "rep": rep,
                           "md": (2 if st <= 0.5 else 3), "ms": 4 if tier == "quick" else 6}
    for st in steps:
        yield {"what": "cut", "step": st}


def run(c, P):
    st = P["step"]
    if P["what"] == "cut":
        gp = c.mod("gspattern")
        s, d = c.grid("s", -2 * G, 4 * G, G), c.grid("d", 0, 6 * G, G)
        pi, v = c.int("p", 0, 127), c.int("v", 0, 127)
        e = gp.Event(s, d, pi, v, "x")
        r = e.cutInSteps(st)
        k = c.floor(d / st)
        c.check("cut", c.eq(len(r), c.If(k < 1, 1, k)))
        for i, x in enumerate(r):
            c.check("cut", c.eq(flat(x), (s + i * st, st, pi, v, "x")))
            c.check("cut", x is not e)
        c.check("cut", c.eq(flat(e), (s, d, pi, v, "x")))
        c.observe("cut", [flat(x) for x in r])
        return
    rep = P["rep"]
    names = ["kick", (rep or ["silence"])[-1], "snare", ("kick", (rep or ["silence"])[-1])]
    evs = [(c.grid("s%d" % i, -2 * G if P["n"] < 3 else 0, P["ms"] * G, G), c.grid("d%d" % i, 1, P["md"] * G, G),
            c.int("p%d" % i, 0, 127), c.int("v%d" % i, 0, 127), names[k]) for i, k in enumerate(P["kinds"])]
    evs = crowd(P, evs, ["kick", "snare", "hat"], 6)
    D = c.grid("D", 1, 6 * G, G)
    p = mkpattern(c, evs, D)
    if rep is None:
        p.alignOnGrid(st)
    else:
        p.alignOnGrid(st, repeatibleTags=rep)
    out = flats(p)
    pos = lambda s: c.floor(s / st + 0.5)
    c.check("length", c.And(p.duration == D))
    # every (step, voice) an input note must occupy
    want = []
    for s, d, pi, v, t in evs:
        if t == names[1]:
            n = c.value(c.floor(d / st))
            for j in range(max(1, n)):
                want.append((pos(s) + j, pi, v, t))
        else:
            want.append((pos(s), pi, v, t))
    for e in out:
        q = e[0] / st
        c.check("ongrid", c.And(q == c.floor(q), e[0] < D))
        c.check("length", e[1] == st)
        c.check("nosteal", c.Or(*[c.And(e[0] == w[0] * st, e[4] == w[3]) for w in want]))
        c.check("content", c.Or(*[c.And(e[0] == w[0] * st, e[4] == w[3], e[2] == w[1], e[3] == w[2]) for w in want]))
    for i, a in enumerate(out):
        for b in out[i + 1:]:
            if a[4] == b[4]:
                c.check("unique", c.Not(a[0] == b[0]))
    for w in want:
        here = c.Count([c.And(e[0] == w[0] * st, e[4] == w[3]) for e in out])
        c.check("filled", c.Implies(w[0] * st < D, here == 1))
    c.observe("out", out)
