"""C21 learning a Markov style"""
from .lib import *

LABELS = ["table", "distribution", "untouched", "order", "again", "states", "matrix", "state", "strings"]
BOUNDS = {
    "quick": "a pattern of any note among 11 given ones; any note in a pattern of 96 steps; orders 1 to 3, 2 to 4 steps, loops of 1, 1 1/2, 2 and 4 beats, corpora of 1 to 3 patterns with up to 4 notes in all "
             "whose starts are symbolic on a grid of 1/4 step (early, late and off-grid; beyond the loop too); tags that are "
             "names, compounds and numbers, simultaneous in either order; the same pattern or the same note objects twice in a corpus; learning twice; moving the state to another style",
    "thorough": "orders 1 to 3, up to 5 steps, corpora of up to 4 notes in all",
}
OUTSIDE = "explicit silence events in the corpus, patterns of another duration than the loop, larger corpora"

TAGSETS = [["a", "b", ("C", "maj")], [1, 9, 17], [("C", "maj"), "C", "a"], ["a", "a", "a"]]


def cases(tier):
    quick = tier == "quick"
    # (order, steps, loop, notes per pattern)
    confs = [(1, 4, 4, [1, 1]), (1, 2, 4, [2]), (2, 4, 4, [2]), (1, 3, 1, [1, 1]), (2, 3, 2, [1, 1]), (1, 2, 2, [1, 1, 1]),
             (1, 3, 4, [0, 2]), (2, 2, 1, [2]), (1, 4, 2, [2]), (1, 3, 1.5, [1, 1])]
    confs += [(1, 4, 4, [2, 1]), (1, 2, 1, [2, 2]), (2, 4, 4, [1, 1, 1]), (3, 4, 4, [1, 1])]
    if not quick:
        confs += [(1, 3, 4, [2, 1]), (1, 4, 4, [2, 2]), (2, 4, 4, [1, 2]), (3, 4, 4, [2, 1]), (3, 5, 4, [2]), (1, 5, 4, [1, 1]),
                  (2, 5, 2, [1, 1])]
    for i, k in enumerate(confs):
        for t in range(len(TAGSETS)):
            if quick and t and (i + t) % 2:
                continue
            yield {"op": "learn", "order": k[0], "steps": k[1], "loop": k[2], "notes": k[3], "tags": t}
    for order in (1, 2):
        yield {"op": "learn", "order": order, "steps": 4, "loop": 4, "notes": [1] * 12, "tags": 0, "given": 1}
    yield {"op": "learn", "order": 1, "steps": 96, "loop": 6, "notes": [1], "tags": 0, "given": 1}
    for share in ("same", "events"):
        yield {"op": "learn", "order": 1, "steps": 4, "loop": 2, "notes": [2], "tags": 0, "share": share}
        yield {"op": "learn", "order": 2, "steps": 3, "loop": 6, "notes": [1, 1], "tags": 2, "share": share}
    yield {"op": "again", "order": 1, "steps": 2, "loop": 4, "notes": [1, 1], "tags": 0}
    yield {"op": "again", "order": 2, "steps": 4, "loop": 4, "notes": [1, 0], "tags": 2}


def corpus(c, P, x=""):
    """Patterns of the loop's duration and, per pattern, the set of tags of each step."""
    k = P["steps"] / P["loop"]
    tags, ps, sets, j = TAGSETS[P["tags"]], [], [], 0
    for i, n in enumerate(P["notes"]):
        evs = []
        for _ in range(n):
            # a quarter of a step, exact in beats
            q = c.int("s%s%d" % (x, j), 0, 4 * P["steps"]) if not j or not P.get("given") else j * 5 % (4 * P["steps"])
            evs.append((q * P["loop"] / (4 * P["steps"]) if (4 * P["steps"]) & (4 * P["steps"] - 1) == 0 else
                        c.value(q) * P["loop"] / (4 * P["steps"]), 0.25, 60, 100, tags[j % len(tags)], q))
            j += 1
        ps.append(mkpattern(c, [e[:5] for e in evs], P["loop"]))
        st = [set() for _ in range(P["steps"])]
        for e in evs:
            s = c.value(c.floor((e[5] + 2) / 4))
            if s < P["steps"]:
                st[s].add(e[4])
        sets.append([frozenset(x) if x else frozenset(["silence"]) for x in st])
    return ps, sets


def model(sets, order, steps):
    """Counts: step -> context -> outcome -> number."""
    t = [{} for _ in range(steps)]
    for st in sets:
        for s in range(steps):
            ctx = tuple(st[(s - order + i) % steps] for i in range(order))
            d = t[s].setdefault(ctx, {})
            d[st[s]] = d.get(st[s], 0) + 1
    return t


def norm(state):
    return frozenset(state)


def same_table(c, label, table, want):
    c.check(label, len(table) == len(want))
    for got, w in zip(table, want):
        keys = [tuple(norm(x) for x in k) for k in got]
        c.check(label, len(set(keys)) == len(keys) and set(keys) == set(w))
        for k, key in zip(got, keys):
            d, e = got[k], w.get(key, {})
            outs = [norm(o) for o in d]
            c.check(label, len(set(outs)) == len(outs) and set(outs) == set(e))
            tot = sum(e.values())
            for o, on in zip(d, outs):
                c.check(label, c.And(d[o] - e.get(on, 0) / tot < 1e-9, e.get(on, 0) / tot - d[o] < 1e-9) if tot else False)
            c.check("distribution", c.And(*[d[o] > 0 for o in d] + [abs(c.Sum([d[o] for o in d]) - 1) < 1e-9]))


def run(c, P):
    gs = c.mod("gsstyles")
    order, steps = P["order"], P["steps"]
    ps, sets = corpus(c, P)
    if P.get("share") == "same":      # a pattern occurs twice
        ps, sets = ps + ps[:1], sets + sets[:1]
    elif P.get("share") == "events":  # another pattern of the very same notes
        q = mkpattern(c, [], P["loop"])
        q.events = list(ps[0].events)
        ps, sets = ps + [q], sets + sets[:1]
    before = [flats(p) for p in ps]
    style = gs.MarkovStyle(order=order, numSteps=steps, loopDuration=P["loop"])
    c.check("state", not style.isBuilt())
    style.generateStyle(ps)
    want = model(sets, order, steps)
    m = style.markovChain
    if P["op"] == "again":
        ps2, sets2 = corpus(c, P, "z")
        style.generateStyle(ps2)
        want = model(sets2, order, steps)
        same_table(c, "again", m.transitionTable, want)
        style.generateStyle(ps2)
        same_table(c, "again", m.transitionTable, want)
        return
    same_table(c, "table", m.transitionTable, want)
    c.check("untouched", c.And(*[c.And(c.eq(flats(p), b), p.duration == P["loop"]) for p, b in zip(ps, before)]))
    c.check("state", style.isBuilt() is True)
    other = gs.MarkovStyle(order=order, numSteps=steps, loopDuration=P["loop"])
    other.generateStyle(ps[::-1])
    same_table(c, "order", other.markovChain.transitionTable, want)
    # states and matrices
    allstates = set()
    for s in range(-1, steps):
        d = m.transitionTable[s]
        ins, outs = set(d), set(o for k in d for o in d[k])
        allstates |= ins | outs
        gi, go = m.getPossibleInStatesAtStep(s), m.getPossibleOutStatesAtStep(s)
        ga = m.getAllPossibleStatesAtStep(s)
        c.check("states", len(gi) == len(ins) and set(gi) == ins and len(go) == len(outs) and set(go) == outs)
        c.check("states", len(ga) == len(ins | outs) and set(ga) == ins | outs)
        mat, li, lo = m.getMatrixAtStep(s)
        c.check("matrix", sorted(li, key=repr) == sorted(ins, key=repr) and sorted(lo, key=repr) == sorted(outs, key=repr))
        c.check("matrix", len(mat) == len(li) and all(len(r) == len(lo) for r in mat))
        for i, a in enumerate(li):
            for j, b in enumerate(lo):
                c.check("matrix", mat[i][j] == d[a].get(b, 0))
    ga = m.getAllPossibleStates()
    c.check("states", len(ga) == len(allstates) and set(ga) == allstates)
    st = m.getStringTransitionTable(jsonStyle=False)
    c.check("strings", len(st) == steps and all(isinstance(k, str) for d in st for k in d))
    if P["tags"] == 0:
        c.check("strings", [sorted(v for e in d.values() for v in e.values()) for d in st] ==
                [sorted(v for e in d.values() for v in e.values()) for d in m.transitionTable])
    same_table(c, "table", m.transitionTable, want)
    # the state moves to another style
    third = gs.MarkovStyle(order=9, numSteps=7, loopDuration=5)
    third.setInternalState(style.getInternalState())
    t = third.markovChain
    c.check("state", third.isBuilt() is True and (t.order, t.numSteps, t.loopDuration) == (order, steps, P["loop"]))
    same_table(c, "state", t.transitionTable, want)
    c.observe("table", [sorted((repr(k), sorted((repr(o), v) for o, v in d[k].items())) for k in d)
                        for d in m.transitionTable])
