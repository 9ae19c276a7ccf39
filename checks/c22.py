"""C22 generating from styles"""
from .lib import *
from .c21 import corpus, model, TAGSETS

LABELS = ["notes", "transitions", "share", "seed", "untouched", "database", "moved"]
BOUNDS = {
    "quick": "styles of orders 1 and 2, 2 to 4 steps, loops of 1 to 4 beats (1 1/2 too), learned from 1 to 3 patterns with symbolic note placement; all draws "
             "symbolic; shares of the draws for choices among up to 4 continuations of up to 5 occurrences at any step, for "
             "36 offsets of the draws; two seeds; databases of up to 4 patterns",
    "thorough": "order 3, up to 5 steps, up to 7 occurrences",
}
OUTSIDE = ("a first guess of the start that the corpus does not contain (orders above 1 guess again, giving up after 30 "
           "guesses); the generator behind random")
# where in each n-th of the draws: all over and right at its ends
OFFSETS = [2 ** -20, 2 ** -10] + [(2 * u + 1) / 64 for u in range(32)] + [1 - 2 ** -10, 1 - 2 ** -20]
STUBS = ", random (draws are inputs)"


def cases(tier):
    quick = tier == "quick"
    confs = [(1, 4, 4, [1, 1]), (1, 2, 4, [2]), (2, 4, 4, [2]), (1, 3, 1, [1, 1]), (2, 3, 2, [1, 1]), (1, 2, 2, [1, 1, 1]),
             (1, 4, 2, [2]), (1, 3, 1.5, [1, 1]), (3, 4, 4, [1])]
    if not quick:
        confs += [(2, 4, 4, [1, 1, 1]), (1, 3, 4, [2, 1]), (3, 4, 4, [1, 1]), (3, 5, 4, [2]), (1, 5, 4, [1, 1]), (2, 5, 2, [1, 1])]
    for i, k in enumerate(confs):
        yield {"op": "follow", "order": k[0], "steps": k[1], "loop": k[2], "notes": k[3], "tags": i % len(TAGSETS)}
    counts = [[1, 1], [2, 1], [1, 2], [1, 1, 1], [3, 1], [1, 2, 1], [2, 3], [1, 1, 1, 1]]
    if not quick:
        counts += [[1, 2, 3], [5, 1], [2, 2, 2, 1], [1, 6]]
    for ks in counts:
        for order, steps in ((1, 2), (1, 4), (2, 4)) if quick else ((1, 2), (1, 4), (2, 4), (3, 5)):
            for s in range(order, steps):
                yield {"op": "share", "counts": ks, "order": order, "steps": steps, "s": s}
    for order, steps in ((1, 3), (2, 4)):
        yield {"op": "seed", "order": order, "steps": steps}
    for mode in ("indexed", "increasing", "random"):
        for n in (1, 2, 4):
            yield {"op": "db", "mode": mode, "n": n}


def steps_of(c, p, steps, loop):
    """The set of tags of each step of a generated pattern, after checking its notes."""
    st = [set() for _ in range(steps)]
    for e in p.events:
        k = e.startTime * steps / loop
        c.check("notes", abs(k - round(k)) < 1e-9 and 0 <= round(k) < steps and abs(e.duration * steps / loop - 1) < 1e-9)
        c.check("notes", e.tag != "silence")
        st[int(round(k)) % steps].add(e.tag)
    c.check("notes", p.duration == loop)
    c.check("notes", sum(len(x) for x in st) == len(p.events))
    return [frozenset(x) if x else frozenset(["silence"]) for x in st]


def copied(table):
    return [dict((k, dict(v)) for k, v in d.items()) for d in table]


def learn(c, gs, P):
    ps, sets = corpus(c, P)
    style = gs.MarkovStyle(order=P["order"], numSteps=P["steps"], loopDuration=P["loop"])
    style.generateStyle(ps)
    return style, model(sets, P["order"], P["steps"]), sets


def run(c, P):
    gs = c.mod("gsstyles")
    if P["op"] == "follow":
        order, steps = P["order"], P["steps"]
        style, want, sets = learn(c, gs, P)
        before = copied(style.markovChain.transitionTable)
        with c.few_draws(order):
            p = style.generatePattern(seed=5)
        st = steps_of(c, p, steps, P["loop"])
        tags = set(t for s in sets for x in s for t in x)
        c.check("notes", all(e.tag in tags for e in p.events))
        if order < steps:
            c.check("transitions", tuple(st[:order]) in want[order])
        for s in range(order, steps):
            d = want[s].get(tuple(st[s - order:s]))
            c.check("transitions", d is not None and st[s] in d)
        c.check("untouched", copied(style.markovChain.transitionTable) == before)
        c.observe("p", [sorted(map(repr, x)) for x in st])
    elif P["op"] == "share":
        # patterns that differ in one step only, so that one draw decides
        ks, order, steps, s = P["counts"], P["order"], P["steps"], P["s"]
        alts = ["a", ("C", "maj"), "b", None][:len(ks)]
        ps = []
        for a, k in zip(alts, ks):
            for _ in range(k):
                ps.append(mkpattern(c, [(i, 0.5, 60, 100, "x") for i in range(steps) if i != s] +
                                    ([(s, 1, 60, 100, a)] if a is not None else []), steps))
        rot = c.value(c.int("rot", 0, len(ps) - 1))
        ps = ps[rot:] + ps[:rot]
        style = gs.MarkovStyle(order=order, numSteps=steps, loopDuration=steps)
        style.generateStyle(ps)
        n = sum(ks)
        u = c.choice("u", OFFSETS)
        got = {}
        for j in range(n):
            with c.same_draws((j + u) / n):
                p = style.generatePattern(seed=1)
            st = steps_of(c, p, steps, steps)
            for i in range(steps):
                c.check("transitions", i == s or st[i] == frozenset(["x"]))
            got[st[s]] = got.get(st[s], 0) + 1
        c.check("share", got == dict((frozenset([a if a is not None else "silence"]), k) for a, k in zip(alts, ks)))
    elif P["op"] == "seed":
        Q = {"order": P["order"], "steps": P["steps"], "loop": P["steps"], "notes": [1, 1], "tags": 0}
        style, want, sets = learn(c, gs, Q)
        out = []
        for seed in (0, 3, 0, 3):
            with c.few_draws(P["order"]):
                out.append(style.generatePattern(seed=seed))
        other = gs.MarkovStyle()
        other.setInternalState(style.getInternalState())
        with c.few_draws(P["order"]):
            out.append(other.generatePattern(seed=3))
        c.check("seed", c.And(c.eq(flats(out[0]), flats(out[2])), c.eq(flats(out[1]), flats(out[3]))))
        c.check("moved", c.And(c.eq(flats(out[1]), flats(out[4])), out[4].duration == out[1].duration))
    else:
        n, mode = P["n"], P["mode"]
        evs = [[(c.grid("s%d" % i, 0, 16, 4), 1, 60 + i, 100, TAGS[i])] for i in range(n)]
        ps = [mkpattern(c, e, 4) for e in evs]
        style = gs.DatabaseStyle(generatePatternOrdering=mode)
        c.check("database", not style.isBuilt())
        style.generateStyle(list(ps))
        c.check("database", style.isBuilt() is True)
        if mode == "increasing":
            c.check("database", all(style.generatePattern(seed=k) is p for k, p in enumerate(ps)))
        elif mode == "indexed":
            style.currentIdx = c.value(c.int("i", 0, n - 1))
            c.check("database", style.generatePattern() is ps[style.currentIdx] and style.generatePattern() is ps[style.currentIdx])
        else:
            a, b = style.generatePattern(seed=4), style.generatePattern(seed=4)
            c.check("database", any(a is p for p in ps))
            c.check("seed", a is b)
            got = []
            u = c.choice("u", OFFSETS)
            for j in range(n):
                with c.same_draws((j + u) / n):
                    got.append(style.generatePattern())
            c.check("share", sorted(id(x) for x in got) == sorted(id(x) for x in ps))
        c.check("untouched", c.And(len(style.patternList) == n, *[c.eq(flats(p), e) for p, e in zip(ps, evs)]))
