"""C29 slices and copies of MIDI tracks, patterns and events"""
from .lib import *
from .c15 import CHAN, META

LABELS = ["slice", "mode", "times", "copy", "apart", "replaced"]
BOUNDS = {
    "quick": "patterns of 3 tracks and tracks of 3 events with symbolic ticks, in relative and in absolute ticks, every "
             "slice with bounds -4..4 or none and steps 1, 2, -1; every kind of event with symbolic tick, channel and data "
             "copied, with and without other values asked for, then changed",
    "thorough": "4 tracks and 4 events, bounds -5..5, steps -3..3",
}
OUTSIDE = "assigning slices; longer tracks"


def cases(tier):
    n = 3 if tier == "quick" else 4
    steps = (None, 2, -1) if tier == "quick" else (None, 1, 2, 3, -1, -2, -3)
    for what in ("track", "pattern"):
        for absolute in (0, 1):
            for st in steps:
                yield {"op": what, "abs": absolute, "n": n, "step": st}
    for what in ("track", "pattern"):
        yield {"op": what, "abs": 0, "n": 10, "step": None}
    for k in list(CHAN) + list(META) + ["sysex"]:
        yield {"op": "copy", "kind": k}


def track(c, m, name, n, absolute):
    ts = []
    for i in range(n):
        t = c.int("%s%d" % (name, i), 0, 1 << 20)
        ts.append(t + (ts[-1] if absolute and ts else 0))
    tr = m.Track([m.NoteOnEvent(tick=t, pitch=i, velocity=1) for i, t in enumerate(ts)], tick_relative=not absolute)
    return tr, ts


def times(ts, absolute):
    """Expected ticks as (relative, absolute) of a track holding ts in the given mode."""
    rel, ab, last = [], [], 0
    for t in ts:
        rel.append(t - last if absolute else t)
        last = t if absolute else last + t
        ab.append(last)
    return rel, ab


def run(c, P):
    m = c.mod("midiio")
    if P["op"] == "copy":
        return copy(c, m, P["kind"])
    n, absolute = P["n"], bool(P["abs"])
    bound = [None] + list(range(-n - 1, n + 2))
    a, b = c.choice("a", bound), c.choice("b", bound)
    sl = slice(a, b, P["step"])
    if P["op"] == "track":
        tr, ts = track(c, m, "t", n, absolute)
        own = list(tr)
        s = tr[sl]
        c.check("slice", isinstance(s, m.Track) and len(s) == len(own[sl]) and
                all(x is y for x, y in zip(s, own[sl])))
        c.check("slice", len(tr) == n and all(x is y for x, y in zip(tr, own)) and tr[0] is own[0] and tr[-1] is own[-1])
        c.check("mode", s.tick_relative == tr.tick_relative == (not absolute))
        want = ts[sl]
        rel, ab = times(want, absolute)
        s.make_ticks_abs()
        c.check("times", c.eq([e.tick for e in s], ab))
        s.make_ticks_rel()
        c.check("times", c.eq([e.tick for e in s], rel))
        c.observe("ticks", [e.tick for e in s])
        return
    trs = [track(c, m, "t%d" % i, 2, absolute) for i in range(n)]
    res, fmt = c.int("res", 1, 32767), c.int("fmt", 0, 2)
    pat = m.Pattern(tracks=[t for t, _ in trs], resolution=res, frmt=fmt, tick_relative=not absolute)
    own = list(pat)
    s = pat[sl]
    c.check("slice", isinstance(s, m.Pattern) and len(s) == len(own[sl]) and all(x is y for x, y in zip(s, own[sl])))
    c.check("slice", len(pat) == n and all(x is y for x, y in zip(pat, own)) and pat[0] is own[0])
    c.check("mode", c.And(s.resolution == res, s.frmt == fmt, pat.resolution == res, pat.frmt == fmt))
    c.check("mode", s.tick_relative == pat.tick_relative == (not absolute))
    s.make_ticks_abs()
    for t, (tr, ts) in zip(s, [trs[i] for i in range(n)][sl]):
        c.check("times", c.eq([e.tick for e in t], times(ts, absolute)[1]))
    s.make_ticks_rel()
    for t, (tr, ts) in zip(s, [trs[i] for i in range(n)][sl]):
        c.check("times", c.eq([e.tick for e in t], times(ts, absolute)[0]))


def copy(c, m, kind):
    tick = c.int("tick", 0, (1 << 28) - 1)
    kw, chan = {}, None
    if kind in CHAN:
        cls, n = CHAN[kind][0], CHAN[kind][1]
        chan = kw["channel"] = c.int("chan", 0, 15)
    elif kind == "sysex":
        cls, n = "SysexEvent", 2
    else:
        cls, n = META[kind][0], META[kind][1]
        if kind == "unknown":
            kw["metacommand"] = META[kind][2]
    data = [c.int("d%d" % i, 0, 127) for i in range(n)]
    e = getattr(m, cls)(tick=tick, data=list(data), **kw)
    own = e.data

    def same(x, t=tick, ch=chan, d=data):
        ok = [type(x) is type(e), x.tick == t, c.eq(list(x.data), list(d))]
        if chan is not None:
            ok.append(x.channel == ch)
        if kind == "unknown":
            ok.append(x.metacommand == META[kind][2])
        return c.And(*ok)
    f = e.copy()
    c.check("copy", f is not e and same(f) and same(e))
    c.check("apart", f.data is not e.data and e.data is own)
    if n:
        f.data[0] = f.data[0] + 1
    else:
        f.data.append(5)
    f.tick = f.tick + 1
    c.check("apart", same(e))
    t2 = c.int("t2", 0, 1000)
    g = e.copy(tick=t2)
    c.check("replaced", same(g, t2) and same(e))
    d2 = [c.int("x%d" % i, 0, 127) for i in range(n)]
    g = e.copy(data=list(d2))
    c.check("replaced", same(g, tick, chan, d2) and same(e))
    if chan is not None:
        ch2 = c.int("ch2", 0, 15)
        g = e.copy(channel=ch2)
        c.check("replaced", same(g, tick, ch2) and same(e))
    if kind in ("on", "off"):
        p2, v2 = c.int("p2", 0, 127), c.int("v2", 0, 127)
        g = e.copy(pitch=p2)
        c.check("replaced", same(g, tick, chan, [p2, data[1]]) and same(e))
        g = e.copy(velocity=v2)
        c.check("replaced", same(g, tick, chan, [data[0], v2]) and same(e))
