"""C28 saving and loading styles"""
from .lib import *
from .c21 import corpus, TAGSETS
from .c22 import copied

LABELS = ["markov", "database", "built", "generates", "untouched"]
BOUNDS = {
    "quick": "Markov styles of orders 1 and 2 with 2 to 4 steps and loops of 1/2 to 4 beats, learned from 1 to 3 patterns with symbolic note placement, "
             "tags that are names, compounds and numbers; databases of up to 3 patterns with symbolic notes, different, equal or no names, one with a viewpoint, and tags that "
             "are names, (nested) compounds and numbers; JSON and pickle; all draws symbolic; loaded into fresh objects and into used ones made with other parameters",
    "thorough": "order 3, 5 steps",
}
OUTSIDE = "patterns shorter than their notes, tags JSON cannot hold at all, files of other versions"
STUBS = ", files, JSON and pickle (in memory), random (draws are inputs)"


def cases(tier):
    confs = [(1, 4, 4, [1, 1]), (1, 2, 4, [2]), (2, 4, 4, [2]), (2, 3, 2, [1, 1]), (1, 2, 2, [1, 1, 1]), (1, 3, 1.5, [1, 1]), (2, 4, 0.5, [1])]
    if tier != "quick":
        confs += [(3, 4, 4, [2]), (1, 5, 4, [1, 1]), (2, 4, 4, [1, 1, 1])]
    for how in ("json", "pickle"):
        for i, k in enumerate(confs):
            for t in range(3):
                yield {"op": "markov", "how": how, "order": k[0], "steps": k[1], "loop": k[2], "notes": k[3], "tags": t}
        for n in (0, 1, 2, 3):
            yield {"op": "db", "how": how, "n": n}


DB = ["kick", ("C", "maj"), 7, ("x", ("y", 2)), ()]


def save(c, style, how):
    f = c.path("style." + how)
    (style.saveToJSON if how == "json" else style.saveToPickle)(f)
    return f


def load(c, style, how, f):
    (style.loadFromJSON if how == "json" else style.loadFromPickle)(f)
    return style


def run(c, P):
    gs = c.mod("gsstyles")
    how = P["how"]
    if P["op"] == "markov":
        ps, sets = corpus(c, P)
        style = gs.MarkovStyle(order=P["order"], numSteps=P["steps"], loopDuration=P["loop"])
        c.check("built", not style.isBuilt())
        style.generateStyle(ps)
        m = style.markovChain
        before = copied(m.transitionTable)
        f = save(c, style, how)
        c.check("untouched", copied(m.transitionTable) == before and style.isBuilt() is True)
        if P["tags"] == 0:
            new = gs.MarkovStyle()
            c.check("built", not new.isBuilt())
        else:
            # made for something else, and trained on it
            new = gs.MarkovStyle(order=3 - min(P["order"], 2), numSteps=P["steps"] + (1 if P["tags"] == 1 else -1), loopDuration=8)
            c.check("built", not new.isBuilt())
            if P["tags"] == 2:
                new.generateStyle([mkpattern(c, [(0, 1, 60, 80, "other")], 8)])
        load(c, new, how, f)
        t = new.markovChain
        c.check("built", new.isBuilt() is True)
        c.check("markov", t.order == P["order"] and t.numSteps == P["steps"] and t.loopDuration == P["loop"])
        c.check("markov", isinstance(t.transitionTable, list) and copied(t.transitionTable) == before)
        out = []
        for s in (style, new):
            with c.few_draws(P["order"]):
                out.append(s.generatePattern(seed=11))
        c.check("generates", c.And(c.eq(flats(out[0]), flats(out[1])), out[0].duration == out[1].duration))
        c.observe("p", flats(out[1]))
    else:
        n = P["n"]
        evs = [[(c.grid("s%d_%d" % (i, j), 0, 16, 4), c.grid("d%d_%d" % (i, j), 1, 8, 4), c.int("p%d_%d" % (i, j), 0, 127),
                 c.int("v%d_%d" % (i, j), 0, 127), c.value(c.choice("t%d_%d" % (i, j), DB if n < 3 else DB[:2])))
                for j in range(min(i, 1) + 1 if n < 3 else 1)] for i in range(n)]
        names = c.choice("names", [["p0", "p1", "p2"], ["p", "p", "p"], [None, "p", None]])
        ps = [mkpattern(c, e, c.grid("D%d" % i, 1, 16, 4), timeSignature=(3, 4), bpm=90 + i, name=names[i])
              for i, e in enumerate(evs)]
        if n > 1:
            v = mkpattern(c, [(0, 2, 60, 80, ("C", "maj"))], 8, name="vp")
            v.originPattern = ps[0]
            ps[0].viewpoints["vp"] = v
        durs = [p.duration for p in ps]
        for e, d in zip(evs, durs):
            for x in e:
                c.assume(x[0] + x[1] <= d)
        style = gs.DatabaseStyle("increasing")
        c.check("built", not style.isBuilt())
        style.generateStyle(ps)
        c.check("built", bool(style.isBuilt()) == (n > 0))
        f = save(c, style, how)
        c.check("untouched", c.And(len(style.patternList) == n, *[c.multiset_eq(flats(p), e) for p, e in zip(style.patternList, evs)]))
        new = gs.DatabaseStyle("increasing")
        if n != 1:
            new.generateStyle([mkpattern(c, [(0, 1, 60, 80, "other")], 8, name="old")])
        load(c, new, how, f)
        c.check("built", bool(new.isBuilt()) == (n > 0))
        c.check("database", len(new.patternList) == n)
        for i, (p, e, d) in enumerate(zip(new.patternList, evs, durs)):
            c.check("database", c.And(c.multiset_eq(flats(p), e), p.duration == d, c.eq(tuple(p.timeSignature), (3, 4)),
                                      p.name == names[i], p.bpm == 90 + i))
            c.check("database", p == ps[i])
            c.check("generates", new.generatePattern() is p)
            c.check("database", sorted(p.viewpoints) == sorted(ps[i].viewpoints))
            for w in p.viewpoints.values():
                c.check("database", w == ps[i].viewpoints["vp"] and w.originPattern is p)
        c.observe("out", [len(p.events) for p in new.patternList])
