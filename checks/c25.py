"""C25 bass line models and constrained generation"""
from .lib import *
from .c16 import chunk

LABELS = ["counts", "rows", "sampling", "constrained", "walk", "variation", "free", "file", "corpus", "untouched", "tables"]
BOUNDS = {
    "quick": "any sequence among 14 given ones; sequences of 1 to 4 beats of 3 codes, up to two of them (and the transition tables and interval tables listed from them), models normalised once or twice in between, kick and bass patterns of 42 beats; matrices of up to 3x3 "
             "counts 0..5; distributions of up to 4 indices (sixteenths) and every draw, 1 to 30 equal chances in doubles with picked draws; constrained models over 2 codes with "
             "any temporal, initial and interlocking probabilities (multiples of 2^-12) and over 3 codes with any temporal "
             "probabilities, 13 kick patterns and 10 variation masks of 2 to 4 beats and one of 12, every walk; bass lines generated from "
             "models of sequences of 3 beats; a corpus of one or two pairs of files, 2 notes each",
    "thorough": "longer masks and kick patterns (to 6 beats), 3 codes with any initial probabilities too",
}
OUTSIDE = ("kick patterns of one beat, kicks the model does not know where it does not know the metronome either; "
           "constraints that no walk satisfies; models nothing was added to; the generator behind numpy.random.choice")
STUBS = ", numpy's arrays (objects) and numpy.random.choice (any element of positive probability), files and JSON (in memory)"

CODES = [8, 2, 0]
KICKS = [8, 0]
W = 1 << 12  # probabilities are multiples of 2^-12


def targets(tier):
    ts = [[8, 8], [8, 0], [0, 8], [8, 8, 8], [8, 0, 8], [0, 0, 8], [0, 8, 0], [8, 4], [4, 0, 8], [8, 8, 0], [0, 8, 8, 0],
          [8, 0, 0, 8], [0, 0, 0, 0]]
    return ts if tier == "quick" else ts + [[8, 4, 0, 8], [8, 0, 8, 0, 8], [0, 8, 8, 8, 0], [8, 8, 0, 0, 8, 8]]


def masks(tier):
    ms = [[8, 2], [8, -1], [8, -1, 8], [8, -1, 2], [2, 0, 8], [0, -2, -8], [8, -1, -1, 2], [2, 2, -1, 8], [8, -1, 2, -1],
          [2, -1, -1, -1], [8, -1, 2, 8, 2, 8, 2, 8, 2, 8, -1, 2]]
    return ms if tier == "quick" else ms + [[8, -1, -1, -1, 2], [8, -1, 2, -1, 8], [8, -1, -1, 2, -1, 0]]


def cases(tier):
    quick = tier == "quick"
    for n in (1, 2, 3, 4):
        yield {"op": "count", "n": n}
        yield {"op": "inter", "n": n}
        if n > 2:
            yield {"op": "count", "n": n, "more": 12}
            yield {"op": "inter", "n": n, "more": 40}
        if n > 1:
            yield {"op": "tables", "n": n}
    for shape in ((1, 3), (2, 2), (3, 3) if not quick else (2, 3)):
        yield {"op": "normalize", "shape": list(shape)}
    for n in (1, 2, 3, 4):
        yield {"op": "sample", "n": n}
    yield {"op": "rounded"}
    for i in range(len(targets(tier))):
        yield {"op": "kick", "t": i, "codes": 2}
        if len(targets(tier)[i]) < 4 or not quick:
            yield {"op": "kick", "t": i, "codes": 3}
    for i in range(len(masks(tier))):
        for codes in (2, 3):
            if codes == 3 or 0 not in masks(tier)[i]:
                yield {"op": "mask", "t": i, "codes": codes}
    for n in (2, 3):
        for op in ("free", "kickline", "maskline"):
            yield {"op": op, "n": n}
    for pairs in (1, 2):
        yield {"op": "corpus", "pairs": pairs}


def near(c, a, b):
    return c.And(a - b <= 1e-6, b - a <= 1e-6)


def dist(c, bm, n, m, name, fixed=None):
    """Matrix 16 x 16 (or vector of 16) whose rows for the first n codes are any distribution over them, or zero."""
    rows = CODES[:m] if n == 2 else [None]
    a = bm.np.zeros((16, 16) if n == 2 else 16, dtype=float)
    for r in rows:
        ks = [c.int("%s%s_%d" % (name, r, y), 0, W) for y in CODES[:m]] if fixed is None else fixed[r]
        t = c.Sum(ks)
        c.assume(c.Or(t == W, t == 0))
        for y, k in zip(CODES[:m], ks):
            if r is None:
                a[y] = k / W
            else:
                a[r, y] = k / W
    return a


class Given(object):
    """A normalised model."""
    def __init__(self, c, bm, m):
        self.bm = bm
        three = m == 3
        some = {None: [W - 4, 3, 1], 8: [1, 0, 1], 0: [0, 3, 1]}
        self.initial_model = dist(c, bm, 1, m, "i", some if three else None)
        self.temporal_model = dist(c, bm, 2, m, "t")
        self.interlocking_model = bm.np.zeros((16, 16), dtype=float)
        for k in KICKS:
            for j, y in enumerate(CODES[:m]):
                v = some[k][j] / W if three else c.int("k%d_%d" % (k, y), 0, 1) / 2
                self.interlocking_model[k, y] = v
        self.model_dictionary = bm.createMarkovGenerationDictionary()
        self.normalized, self.model_size = True, (16, 16)

    def get_initial(self): return self.initial_model
    def get_temporal(self): return self.temporal_model
    def get_interlocking(self): return self.interlocking_model


def bits(k): return [i / 4 for i in range(4) if k >> (3 - i) & 1]


def pattern_of(c, codes, dur=None):
    evs = [(b + s, 0.25, 36, 100, "Kick") for b, k in enumerate(codes) for s in bits(k)]
    return mkpattern(c, evs, len(codes) if dur is None else dur)


def alive(c, B, A, codes):
    """Per beat the codes that can be followed up to the last beat, and their continuations."""
    live, cont = [None] * len(A), [None] * len(A)
    live[-1] = list(A[-1])
    for i in range(len(A) - 2, -1, -1):
        cont[i] = {x: [y for y in live[i + 1] if c.fork(B[x, y] > 0)] for x in A[i]}
        live[i] = [x for x in A[i] if cont[i][x]]
    return live, cont


def judge(c, label, model, B, A, live, cont, start):
    """model is {step: {code: {pattern, probs}}}."""
    c.check(label, sorted(model) == list(range(len(A) - 1)))
    reach = list(start)
    for i in range(len(A) - 1):
        c.check(label, all(x in model[i] for x in reach) and all(x in live[i] for x in model[i]))
        for x in sorted(model[i]):
            ps, qs = list(model[i][x]["pattern"]), list(model[i][x]["probs"])
            c.check(label, len(ps) == len(qs) > 0 and sorted(ps) == sorted(cont[i][x]))
            tot = c.Sum([B[x, y] for y in ps])
            for y, q in zip(ps, qs):
                c.check(label, near(c, q * tot, B[x, y]))
        reach = sorted(set(y for x in reach for y in cont[i][x]))


def walk(c, label, init, model, n):
    """Every walk: a symbolic choice at every beat."""
    x, out = init, [init]
    for i in range(n - 1):
        c.check(label, x in model[i])
        ps = sorted(model[i][x]["pattern"])
        x = c.choice("w%d" % i, ps)
        out.append(x)
    return out


def codes_of(line, n):
    out = [0] * n
    for e in line.events:
        b = int(e.startTime)
        out[b] |= 8 >> int(4 * (e.startTime - b))
    return out


def run(c, P):
    bm = c.mod("bassmine")
    op = P["op"]
    c.mkdir(c.path("output"))
    if op in ("count", "inter"):
        seqs = [[c.choice("s%d" % i, CODES) for i in range(P["n"])], [8, 2, 2], [0, 8]]
        m = bm.MarkovModel(16)
        seqs += [[8, CODES[i % 3], 2] for i in range(P.get("more", 0))]
        bass = [2, 8, 10]
        if op == "inter" and P.get("more"):
            bass = [CODES[i // 2 % 3] for i in range(P["more"])] + bass
            seqs = [[CODES[i % 3] for i in range(P["more"])] + s for s in seqs[:3]]
        for k in range(len(seqs)):
            if op == "count":
                m.add_temporal(list(seqs[k]))
            else:
                m.add_temporal([8, 8])
                m.add_interlocking(seqs[k], list(bass))
            if k == 1:
                m.normalize_model()
                if P["n"] % 2:
                    m.normalize_model()
                early = [m.get_initial().copy(), m.get_temporal().copy(), m.get_interlocking().copy()]
        m.normalize_model()
        for (I, T, K), part in ((early, seqs[:2]), ((m.get_initial(), m.get_temporal(), m.get_interlocking()), seqs)):
            if op == "count":
                first = [s[0] for s in part]
                pairs = [(a, b) for s in part for a, b in zip(s, s[1:] + s[:1]) if len(s) > 1]
                for x in range(16):
                    c.check("counts", near(c, I[x] * len(first), first.count(x)))
                    row = sum(1 for a, _ in pairs if a == x)
                    for y in range(16):
                        c.check("counts", near(c, T[x, y] * max(row, 1), pairs.count((x, y))))
            else:
                pairs = [p for s in part for p in zip(s, bass)]
                for x in range(16):
                    row = sum(1 for a, _ in pairs if a == x)
                    for y in range(16):
                        c.check("counts", near(c, K[x, y] * max(row, 1), pairs.count((x, y))))
        c.observe("model", [m.get_initial().tolist(), m.get_temporal().tolist(), m.get_interlocking().tolist()])
    elif op == "tables":
        n = P["n"]
        seq = [c.choice("s%d" % i, [8, 2, 0]) for i in range(n)]
        m = bm.MarkovModel(16)
        m.add_temporal(list(seq))
        m.add_temporal([2, 8, 2])
        m.normalize_model()
        I, T = m.get_initial().copy(), m.get_temporal().copy()
        init, table = m.rhythm_model(c.path("output") + "/") if n > 2 else m.rhythm_model()

        def listed(ps, qs, row, shift=0):
            c.check("tables", len(ps) == len(qs) and sorted(ps) == [y - shift for y in range(len(row)) if row[y] > 0])
            for y, q in zip(ps, qs):
                c.check("tables", near(c, q, row[y + shift]))
        listed(init["initial"]["pattern"], init["initial"]["prob"], I)
        c.check("tables", sorted(table) == sorted(set(seq) | {2, 8}))
        for x in table:
            listed(table[x]["pattern"], table[x]["probs"], T[x])
        f, g = c.readjson(c.path("output/HModel.json")), c.readjson(c.path("output/HModel_init.json"))
        c.check("file", sorted(f) == sorted(str(x) for x in table) and
                all(c.eq(list(f[str(x)][k]), list(table[x][k])) for x in table for k in ("pattern", "probs")))
        c.check("file", all(c.eq(list(g["initial"][k]), list(init["initial"][k])) for k in ("pattern", "prob")))
        c.check("untouched", c.And(*[m.get_temporal()[x, y] == T[x, y] for x in CODES for y in CODES]))
        pm = bm.MarkovModel(25)
        pm.add_temporal([12] + [x + 10 for x in seq])
        pm.normalize_model()
        T = pm.get_temporal()
        out = pm.pitch_model()
        c.check("tables", sorted(out) == sorted(set([0] + [x - 2 for x in seq])))
        for x in out:
            listed(out[x]["interval"], out[x]["probs"], T[x + 12], 12)
        c.observe("tables", [sorted(table), sorted(out)])
    elif op == "normalize":
        h, w = P["shape"]
        a = bm.np.zeros((h, w), dtype=float)
        ks = [[c.int("k%d%d" % (i, j), 0, 5) for j in range(w)] for i in range(h)]
        for i in range(h):
            for j in range(w):
                a[i, j] = ks[i][j]
        r = bm.normalize(a)
        for i in range(h):
            t = c.Sum(ks[i])
            for j in range(w):
                c.check("rows", c.If(t > 0, near(c, r[i, j] * t, ks[i][j]), near(c, r[i, j], 0)))
            c.check("rows", c.If(t > 0, near(c, c.Sum([r[i, j] * t for j in range(w)]), t), True))
    elif op == "sample":
        n = P["n"]
        ks = [c.int("k%d" % i, 0, 16) for i in range(n)]
        c.assume(c.Sum(ks) == 16)
        ps = [k / 16 for k in ks]
        u = c.grid("u", 0, 1023, 1024)
        with c.same_draws(u):
            i = c.value(bm.pdf_sampling(list(ps)))
        c.check("sampling", c.And(c.Sum(ps[:i]) <= u, u < c.Sum(ps[:i + 1])) if 0 <= i < n else False)
        c.observe("i", i)
    elif op == "rounded":
        # probabilities that add up to a little less than 1 in doubles, the last one not always possible
        k, z = c.value(c.int("k", 1, 30)), c.value(c.int("zeros", 0, 1))
        ps = [0.0] * z + [1 / k] * k + [0.0] * c.value(c.int("more", 0, 1))
        u = c.value(c.choice("u", [0.0, 0.5, 1 - 2.0 ** -53, 1 - 2.0 ** -52, 0.1, 0.9]))
        with c.same_draws(u):
            i = c.value(bm.pdf_sampling(list(bm.np.array(ps))))
        c.check("sampling", 0 <= i < len(ps) and ps[i] > 0 and sum(ps[:i]) - 1e-9 <= u <= sum(ps[:i + 1]) + 1e-9)
        c.observe("i", i)
    elif op in ("kick", "mask"):
        m = Given(c, bm, P["codes"])
        codes = CODES[:P["codes"]]
        B = m.temporal_model.copy()
        t = (targets if op == "kick" else masks)("thorough")[P["t"]]
        if op == "kick":
            A = []
            for k in t:
                dom = {q: [y for y in codes if c.fork(m.interlocking_model[q, y] > 0)] for q in KICKS}
                A.append(dom[k] if dom.get(k) else dom[8])
                c.assume(len(A[-1]) > 0)
            live, cont = alive(c, B, A, codes)
            start = [x for x in live[0] if c.fork(m.initial_model[x] > 0)]
            c.assume(len(start) > 0)
            init, model = bm.constrainMM(m, pattern_of(c, t))
            ps, qs = list(init["initial"]["pattern"]), list(init["initial"]["prob"])
            c.check("constrained", sorted(ps) == sorted(start) and len(qs) == len(ps))
            tot = c.Sum([m.initial_model[x] for x in ps])
            for x, q in zip(ps, qs):
                c.check("constrained", near(c, q * tot, m.initial_model[x]))
            names = ("NHModel.json", "Model_init.json")
        else:
            A = [[k] if k >= 0 else codes for k in t]
            live, cont = alive(c, B, A, codes)
            c.assume(t[0] in codes and len(live[0]) > 0)
            start = [t[0]]
            init, model = bm.variationMM(m, list(t))
            c.check("variation", init["initial"]["pattern"] == t[0] and init["initial"]["prob"] == 1)
            names = ("NHModel_var.json", "Model_init_var.json")
        judge(c, "constrained" if op == "kick" else "variation", model, B, A, live, cont, start)
        c.check("untouched", c.And(*[m.temporal_model[x, y] == B[x, y] for x in codes for y in codes]))
        f = c.readjson(c.path("output/" + names[0]))
        c.check("file", sorted(f) == sorted(str(i) for i in model) and
                all(sorted(f[str(i)]) == sorted(str(x) for x in model[i]) for i in model))
        c.check("file", c.And(*[c.eq(list(f[str(i)][str(x)][k]), list(model[i][x][k]))
                                for i in model for x in model[i] for k in ("pattern", "probs")]))
        g = c.readjson(c.path("output/" + names[1]))["initial"]
        c.check("file", c.And(c.eq(g["pattern"], init["initial"]["pattern"]), c.eq(g["prob"], init["initial"]["prob"])))
        out = walk(c, "walk", c.choice("w", sorted(start)), model, len(t))
        c.check("walk", all(x in a for x, a in zip(out, A)))
        c.observe("walk", out)
    elif op in ("free", "kickline", "maskline"):
        n = P["n"]
        seq = [c.choice("s%d" % i, [8, 2, 0]) for i in range(n)]
        m = bm.MarkovModel(16)
        m.add_temporal(list(seq))
        m.add_temporal([2, 8, 8])
        m.add_interlocking([8, 0, 0], [8, 8, 2])
        m.add_interlocking([8] * n, seq)
        m.normalize_model()
        pairs = set(zip(seq, seq[1:] + seq[:1])) | {(2, 8), (8, 8), (8, 2)}
        dom = {8: set(seq) | {8}, 0: {8, 2}}
        if op == "free":
            line = bm.generateBassRhythm(m, 4)
            got = codes_of(line, 4)
            c.check("free", line.duration == 4 and got[0] in (seq[0], 2) and all(p in pairs for p in zip(got, got[1:])))
        elif op == "kickline":
            t = c.choice("t", [[8, 0], [0, 8, 8], [8, 8, 8, 0]])
            beats = c.choice("beats", [2, 3, 8])
            A = [[x for x in CODES if x in dom[k]] for k in t]
            live, cont = alive(c, m.get_temporal(), A, CODES)
            c.assume(any(x in live[0] for x in (seq[0], 2)))
            line = bm.generateBassRhythm(m, beats, pattern_of(c, t, float(len(t))))
            got = codes_of(line, min(beats, len(t)))
            c.check("walk", line.duration == min(beats, len(t)) and got[0] in (seq[0], 2) and
                    all(p in pairs for p in zip(got, got[1:])))
            c.check("walk", all(x in dom[k] for x, k in zip(got, t)))
        else:
            mask = [c.value(c.choice("m%d" % i, [1, -1])) for i in range(n + 1)]
            given = seq + seq[:1]
            line = bm.generateBassRhythmVariation(m, pattern_of(c, given), mask)
            got = codes_of(line, len(given))
            c.check("walk", line.duration == len(given) and all(p in pairs for p in zip(got, got[1:])))
            c.check("walk", all(x == y or (k < 0 and i) for i, (x, y, k) in enumerate(zip(got, given, mask))))
        c.check("walk", all(e.duration > 0 and e.tag == "bass" for e in line.events))
        c.observe("line", flats(line))
    else:
        for d in ("bass", "drums"):
            c.mkdir(c.path(d))
        seqs, kicks = [], []
        for i in range(P["pairs"]):
            body = {}
            for d in ("bass", "drums"):
                s = [c.value(c.int("%s%d%d" % (d[0], i, j), 0, 3)) for j in range(2)] if i == 0 else [1, 0]
                codes = [8 >> s[0], 8 >> s[1]]
                (seqs if d == "bass" else kicks).append(codes)
                ticks = [24 * s[0], 96 + 24 * s[1]]
                pitch = 40 if d == "bass" else 36
                b = [ticks[0], 0x90, pitch, 100, 12, 0x80, pitch, 0]
                if d == "drums":    # another drum, not a kick
                    b += [0, 0x90, 38, 90, 6, 0x80, 38, 0]
                gap = ticks[1] - ticks[0] - 12 - (6 if d == "drums" else 0)
                end = 192 - ticks[1] - 12
                body[d] = b + ([0x81, gap - 128] if gap > 127 else [gap]) + [0x90, pitch, 100, 12, 0x80, pitch, 0, end, 0xFF, 0x2F, 0]
                c.writebytes(c.path("%s/%s_song%d.mid" % (d, d, i)), chunk(c, 96, [body[d]]))
        m, ks = bm.corpus_analysis(c.path("bass"), c.path("drums"))
        m.normalize_model()
        I, T, K = m.get_initial(), m.get_temporal(), m.get_interlocking()
        pairs = [p for s in seqs for p in zip(s, s[1:] + s[:1])]
        inter = [p for k, s in zip(kicks, seqs) for p in zip(k, s)]
        for x in range(16):
            c.check("corpus", near(c, I[x] * len(seqs), sum(s[0] == x for s in seqs)))
            for y in range(16):
                c.check("corpus", near(c, T[x, y] * max(1, sum(a == x for a, _ in pairs)), pairs.count((x, y))))
                c.check("corpus", near(c, K[x, y] * max(1, sum(a == x for a, _ in inter)), inter.count((x, y))))
        c.check("corpus", len(ks) == len(kicks))
        c.observe("model", [I.tolist(), T.tolist(), K.tolist()])
