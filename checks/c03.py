"""C03 fillWithSilences / getFilledWithSilences"""
from .lib import *

LABELS = ["kept", "silence", "disjoint", "covered", "max", "source"]
BOUNDS = {
    "quick": "any note among 10 given ones; up to 2 notes with symbolic starts [0,4], durations (0,3] on a grid of 2^-14 beats, pattern duration up to 7 "
             "beats (possibly shorter than the notes), one symbolic probe instant (on half that grid); maximum silence "
             "length none, 1 or 1.5; whole pattern or per tag (plain, substring-related and tuple tags, the silences' own tag, no tag)",
    "thorough": "up to 3 notes, starts [0,6], durations (0,4], maximum silence none, 0.5, 1, 1.5, 2",
}
OUTSIDE = "notes before time 0, more notes"
TG = [["kick", "snare", "hat"], ["LowConga", "Conga", "Low"], [("C", "maj"), "C", ("C", "min")], ["rest", (), "rest2"]]


def cases(tier):
    quick = tier == "quick"
    for per in (0, 1):
        for mx in (0, 1):
            yield {"n": 1, "max": mx, "per": per, "voices": [0], "tg": 0, "variant": "copy", "g": G, "crowd": 10}
    for n in ((0, 1, 2) if quick else (0, 1, 2, 3)):
        for mx in ((0, 1, 1.5) if quick else (0, 0.5, 1, 1.5, 2)):
            for per in (0, 1):
                for parts in (rgs(n) if per else [[0] * n]):
                    for tg in (range(4) if per and n > 1 else (0, 3) if n else (0,)):
                        if n == 2 and tg and mx == 1.5 or n == 3 and tg and mx not in (0, 1):
                            continue
                        for variant in ("copy", "inplace"):
                            if variant == "inplace" and not (n in (0, 2) and mx == 1):
                                continue
                            yield {"n": n, "max": mx, "per": per, "voices": parts, "tg": tg,
                                   "variant": variant, "g": G}


def run(c, P):
    n, mx, per, g = P["n"], P["max"], P["per"], P["g"]
    tags = [TG[P["tg"]][v] for v in P["voices"]]
    evs = [(c.grid("s%d" % i, 0, 4 * g, g), c.grid("d%d" % i, 1, 3 * g, g),
            c.int("p%d" % i, 0, 127), c.int("v%d" % i, 0, 127), tags[i]) for i in range(n)]
    evs = crowd(P, evs, TG[0][:2], 6, True)
    D = c.grid("D", 0, 7 * g, g)
    p = mkpattern(c, evs, D, name="x")
    if P["variant"] == "copy":
        q = p.getFilledWithSilences(maxSilenceTime=mx, perTag=bool(per), silenceTag="rest")
        c.check("source", c.And(c.eq(flats(p), evs), p.duration == D))
        sp = 0
    else:
        sp = c.int("sp", 0, 127)
        p.fillWithSilences(maxSilenceTime=mx, perTag=bool(per), silenceTag="rest", silencePitch=sp)
        q = p
    sil = [e for e in q.events if e.tag == "rest"]
    rest = [e for e in q.events if e.tag != "rest"]
    own = [e for e in evs if e[4] == "rest"]
    if own:
        # every note is still there; what else has the tag was added
        for e in own:
            at = [i for i, f in enumerate(sil) if c.fork(c.eq(flat(f), e))]
            c.check("kept", len(at) > 0)
            if at:
                sil.pop(at[0])
        evs_rest = [e for e in evs if e[4] != "rest"]
        c.check("kept", c.multiset_eq([flat(e) for e in rest], evs_rest))
    else:
        c.check("kept", c.multiset_eq([flat(e) for e in rest], evs))
    for e in sil:
        c.check("silence", c.And(e.duration > 0, e.velocity == 0, e.pitch == sp))
        if mx > 0:
            c.check("max", e.duration <= mx)
    t = c.grid("t", 0, 7 * 2 * g, 2 * g)
    c.assume(t < D)
    on = lambda s, d: c.And(s <= t, t < s + d)
    nsil = c.Count([on(e.startTime, e.duration) for e in sil])
    if not per:
        nn = c.Count([on(s, d) for s, d, _, _, _ in evs])
        c.check("disjoint", c.And(nsil <= 1, c.Or(nsil == 0, nn == 0)))
        c.check("covered", nsil + nn >= 1)
    else:
        # each voice is filled on its own: one silence per voice that rests
        voices = set(e[4] for e in evs)
        resting = c.Count([c.Not(c.Or(*[on(e[0], e[1]) for e in evs if e[4] == w]))
                           for w in voices])
        c.check("disjoint", nsil <= resting)
        c.check("covered", nsil == resting)
    c.observe("q", flats(q), unordered=True)
