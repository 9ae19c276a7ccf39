"""C15 midiio: encoding and decoding of MIDI files"""
from .lib import *

LABELS = ["same", "header", "wellformed", "foreign", "fields", "ticks"]
BOUNDS = {
    "quick": "every kind of event alone with a symbolic 28-bit delta time, channel and data; every ordered pair of 21 "
             "kinds and triples of 5 kinds (deltas 0..200) in a track, any channels (so running status is used or "
             "not); 1, 2 or 18 tracks, an event among 160 given ones, symbolic resolution; texts of up to 2 symbolic characters; texts, "
             "data and sysex of 126 to 70000 bytes, 3 of them symbolic; files of other software "
             "with running status and headers up to 3 bytes longer; values set on events; 3 events between relative "
             "and absolute ticks",
    "thorough": "all ordered pairs of kinds, triples of 11 kinds, headers up to 8 bytes longer, 6 events in ticks",
}
OUTSIDE = "longer tracks, sysex split over several packets, truncated files, SMPTE resolutions; Python 2 is not replayed"

# kind -> (class, data length, metacommand)
CHAN = {"on": ("NoteOnEvent", 2, 0x90), "off": ("NoteOffEvent", 2, 0x80), "at": ("AfterTouchEvent", 2, 0xA0),
        "cc": ("ControlChangeEvent", 2, 0xB0), "pc": ("ProgramChangeEvent", 1, 0xC0),
        "cat": ("ChannelAfterTouchEvent", 1, 0xD0), "pw": ("PitchWheelEvent", 2, 0xE0)}
META = {"seq": ("SequenceNumberMetaEvent", 2, 0x00), "text": ("TextMetaEvent", 2, 0x01),
        "copyright": ("CopyrightMetaEvent", 1, 0x02), "name": ("TrackNameEvent", 2, 0x03),
        "instr": ("InstrumentNameEvent", 1, 0x04), "lyrics": ("LyricsEvent", 1, 0x05),
        "marker": ("MarkerEvent", 0, 0x06), "cue": ("CuePointEvent", 1, 0x07),
        "program": ("ProgramNameEvent", 1, 0x08), "prefix": ("ChannelPrefixEvent", 1, 0x20),
        "port": ("PortEvent", 1, 0x21), "loop": ("TrackLoopEvent", 1, 0x2E), "eot": ("EndOfTrackEvent", 0, 0x2F),
        "tempo": ("SetTempoEvent", 3, 0x51), "smpte": ("SmpteOffsetEvent", 5, 0x54),
        "metre": ("TimeSignatureEvent", 4, 0x58), "key": ("KeySignatureEvent", 2, 0x59),
        "special": ("SequencerSpecificEvent", 3, 0x7F), "unknown": ("UnknownMetaEvent", 2, 0x60)}
TEXTS = ("text", "copyright", "name", "instr", "lyrics", "marker", "cue", "program")
KINDS = list(CHAN) + list(META) + ["sysex"]
PAIR = ["on", "off", "cc", "pc", "pw", "sysex", "tempo", "text", "unknown"]
PAIR_T = list(CHAN) + ["sysex", "seq", "text", "name", "lyrics", "prefix", "port", "eot", "tempo", "smpte", "metre",
                       "key", "special", "unknown"]


def cases(tier):
    quick = tier == "quick"
    for k in KINDS:
        yield {"op": "file", "kinds": [[k]], "big": 1}
    pair = PAIR_T if quick else KINDS
    for a in pair:
        for b in pair:
            yield {"op": "file", "kinds": [[a, b]], "big": 0}
    tri = ["on", "cc", "pc", "sysex", "text"] if quick else PAIR_T[:9] + PAIR_T[-2:]
    for a in tri:
        for b in tri:
            for d in tri:
                yield {"op": "file", "kinds": [[a, b, d]], "big": 0}
    for t in [["on"] * 5, ["on", "off"] * 3, ["pc", "on", "on", "off"], ["sysex*70000", "on", "text*300"],
              ["cc", "text", "cc", "sysex", "cc", "cc"]] + ([] if quick else [["on"] * 7, ["pc", "cat"] * 3]):
        yield {"op": "file", "kinds": [t], "big": 0}
    for t in [["on"]] + [["on!"]] * 17, [["on!", "off!"] * 60 + ["on"] + ["pc!", "text!"] * 20]:
        yield {"op": "file", "kinds": t, "big": 0}
    for t in ([["on"], ["on"]], [["tempo", "on"], ["off", "eot"]], [[], ["on"]], []):
        yield {"op": "file", "kinds": t, "big": 0}
    for k in ("text", "name", "special", "unknown", "sysex"):
        for n in (126, 127, 128, 300) + (() if quick and k not in ("text", "sysex") else (16383, 16384, 70000)):
            yield {"op": "file", "kinds": [["on", "%s*%d" % (k, n), "on"]], "big": 0}
            if n in (127, 128) or not quick and n < 1000:
                yield {"op": "foreign", "kinds": ["on", "%s*%d" % (k, n), "on"], "extra": 0}
    for k in META:
        for n in {0, 1, 6}:
            if n != META[k][1]:
                yield {"op": "foreign", "kinds": ["on", "%s*%d" % (k, n), "on"], "extra": 0}
    yield {"op": "foreign", "kinds": ["on", "sysex*0", "on"], "extra": 0}
    for x in ((0, 1, 3) if quick else (0, 1, 2, 3, 8)):
        for ks in (["on", "on", "off"], ["on", "text", "on"], ["on", "sysex", "on"], ["pc", "pc", "unknown"],
                   ["cc", "cc", "cc"]):
            yield {"op": "foreign", "kinds": ks, "extra": x}
    for k in ["on", "off", "at", "cc", "pc", "cat", "pw", "tempo", "bpm", "metre", "key", "text"]:
        yield {"op": "fields", "kind": k}
    for n in ((0, 1, 3) if quick else (0, 1, 3, 6)):
        yield {"op": "ticks", "n": n}


def vlq(c, v):
    """Minimal variable-length quantity, as a list of bytes."""
    n = 1
    while n < 4 and not c.fork(v < (1 << (7 * n))):
        n += 1
    out = []
    for i in range(n):
        out.insert(0, (v // (1 << (7 * i))) % 128 + (128 if i else 0))
    return out


class Cursor(object):
    def __init__(self, c, l, label):
        self.c, self.l, self.i, self.label = c, l, 0, label

    def byte(self):
        self.c.check(self.label, self.i < len(self.l))
        self.i += 1
        return self.l[self.i - 1] if self.i <= len(self.l) else 0

    def take(self, n): return [self.byte() for _ in range(n)]

    def num(self, n):
        v = 0
        for b in self.take(n):
            v = v * 256 + b
        return v

    def vlq(self):
        v, n = 0, 0
        while True:
            b = self.byte()
            self.c.check(self.label, self.c.Not(b == 128) if n == 0 else True)  # minimal
            n += 1
            more = self.c.fork(b >= 128)
            v = v * 128 + (b - 128 if more else b)
            if not more or n == 4:
                self.c.check(self.label, not more)
                return v


def parse(c, data, label="wellformed"):
    """Strict reading of a MIDI file: (format, resolution, [[(tick, status, channel, data)]])."""
    cur = Cursor(c, data, label)
    c.check(label, c.eq(cur.take(4), [77, 84, 104, 100]))
    c.check(label, cur.num(4) == 6)
    fmt, n, res = c.value(cur.num(2)), c.value(cur.num(2)), cur.num(2)
    tracks = []
    for _ in range(n):
        c.check(label, c.eq(cur.take(4), [77, 84, 114, 107]))
        size = c.value(cur.num(4))
        end = cur.i + size
        running, tr = None, []
        while cur.i < end:
            tick = cur.vlq()
            b = cur.byte()
            if c.fork(b < 128):
                c.check(label, running is not None)
                if running is None:
                    return fmt, res, tracks
                st, ch = running
                need = 1 if st in (0xC0, 0xD0) else 2
                d = [b] + cur.take(need - 1)
            else:
                st = c.value(b - b % 16)
                if st == 0xF0:
                    running = None
                    b = c.value(b)
                    if b == 0xFF:
                        cmd = c.value(cur.byte())
                        ln = c.value(cur.vlq())
                        tr.append((tick, 0xFF, cmd, cur.take(ln)))
                        continue
                    c.check(label, b == 0xF0)
                    ln = c.value(cur.vlq())
                    d = cur.take(ln)
                    c.check(label, len(d) > 0 and d[-1] == 0xF7)
                    tr.append((tick, 0xF0, 0, d[:-1]))
                    continue
                ch = b % 16
                running = (st, ch)
                d = cur.take(1 if st in (0xC0, 0xD0) else 2)
            for x in d:
                c.check(label, x < 128)
            tr.append((tick, st, ch, d))
        c.check(label, cur.i == end)
        tracks.append(tr)
    c.check(label, cur.i == len(data))
    return fmt, res, tracks


def spec(c, name, kind, big):
    """(tick, status, channel or command, data) with symbolic contents."""
    if kind[-1] == "!":   # a given event
        k, x = kind[:-1], sum(map(ord, name))
        return (x, CHAN[k][2], x % 3, [x % 128, 64][:CHAN[k][1]]) if k in CHAN else (x, 0xFF, META[k][2], [65] * META[k][1])
    tick = c.int("t" + name, 0, (1 << 28) - 1 if big else 200)
    if "*" in kind:
        # long contents: the first, one in the middle and the last byte are symbolic
        kind, n = kind.split("*")
        n = int(n)
        d = [(7 * i + 3) % 128 for i in range(n)]
        for i in sorted({0, n // 2, n - 1}) if n else ():
            d[i] = c.int("d%s_%d" % (name, i), 0, 127)
        return (tick, 0xF0, 0, d) if kind == "sysex" else (tick, 0xFF, META[kind][2], d)
    if kind in CHAN:
        cls, n, st = CHAN[kind]
        return tick, st, c.int("c" + name, 0, 15), [c.int("d%s_%d" % (name, i), 0, 127) for i in range(n)]
    if kind == "sysex":
        return tick, 0xF0, 0, [c.int("d%s_%d" % (name, i), 0, 127) for i in range(2)]
    cls, n, cmd = META[kind]
    return tick, 0xFF, cmd, [c.int("d%s_%d" % (name, i), 0, 255) for i in range(n)]


def build(c, m, kind, sp):
    kind = kind.split("*")[0].rstrip("!")
    tick, st, x, data = sp
    if kind in CHAN:
        return getattr(m, CHAN[kind][0])(tick=tick, channel=x, data=list(data))
    if kind == "sysex":
        return m.SysexEvent(tick=tick, data=list(data))
    if kind == "unknown":
        return m.UnknownMetaEvent(tick=tick, data=list(data), metacommand=x)
    return getattr(m, META[kind][0])(tick=tick, data=list(data))


def compare(c, m, label, got, kind, sp):
    kind = kind.split("*")[0].rstrip("!")
    tick, st, x, data = sp
    name = CHAN[kind][0] if kind in CHAN else "SysexEvent" if kind == "sysex" else META[kind][0]
    c.check(label, type(got).__name__ == name)
    c.check(label, c.And(got.tick == tick, c.eq(list(got.data), list(data))))
    if kind in CHAN:
        c.check(label, got.channel == x)
    elif kind != "sysex":
        c.check(label, got.metacommand == x)
    if kind in TEXTS:
        c.check(label, len(got.text) == len(data))
        c.check(label, c.And(*[ord(ch) == d for ch, d in zip(got.text, data)])
                if not c.symbolic else got.text == build(c, m, kind, sp).text)


def run(c, P):
    m = c.mod("midiio")
    op = P["op"]
    if op == "file":
        res = c.int("res", 1, 0x7FFF)
        fmt = 1 if len(P["kinds"]) != 1 else c.choice("fmt", [0, 1])
        specs = [[spec(c, "%d_%d" % (i, j), k, P["big"]) for j, k in enumerate(ks)] for i, ks in enumerate(P["kinds"])]
        pat = m.Pattern(resolution=res, frmt=fmt)
        for ks, sps in zip(P["kinds"], specs):
            t = m.Track()
            for k, sp in zip(ks, sps):
                t.append(build(c, m, k, sp))
            pat.append(t)
        f = c.path("x.mid")
        m.write_midifile(f, pat)
        for t, ks, sps in zip(pat, P["kinds"], specs):
            for e, k, sp in zip(t, ks, sps):
                compare(c, m, "same", e, k, sp)
        data = c.readbytes(f)
        gfmt, gres, tracks = parse(c, data)
        c.check("header", c.And(gfmt == fmt, gres == res, len(tracks) == len(specs)))
        c.check("wellformed", [len(t) for t in tracks] == [len(s) for s in specs])
        for t, sps in zip(tracks, specs):
            for a, b in zip(t, sps):
                c.check("wellformed", c.And(a[0] == b[0], a[1] == b[1], a[2] == b[2], c.eq(a[3], b[3])))
        back = m.read_midifile(f)
        c.check("header", c.And(back.format if hasattr(back, "format") else back.frmt == fmt,
                                back.resolution == res, len(back) == len(specs)))
        for t, ks, sps in zip(back, P["kinds"], specs):
            c.check("same", len(t) == len(ks))
            for e, k, sp in zip(t, ks, sps):
                compare(c, m, "same", e, k, sp)
        c.observe("bytes", data)
    elif op == "foreign":
        specs = [spec(c, str(i), k, 0) for i, k in enumerate(P["kinds"])]
        res = c.int("res", 1, 0x7FFF)
        body, running = [], None
        use = c.choice("use", [True, False])
        for k, (tick, st, x, d) in zip(P["kinds"], specs):
            body += vlq(c, tick)
            if st == 0xFF:
                body += [0xFF, x] + vlq(c, len(d)) + d
                running = None
            elif st == 0xF0:
                body += [0xF0] + vlq(c, len(d) + 1) + d + [0xF7]
                running = None
            else:
                if not (use and running is not None and running[0] == st and c.fork(running[1] == x)):
                    body.append(st + x)
                running = (st, x)
                body += d
        n = P["extra"]
        data = ([77, 84, 104, 100, 0, 0, 0, 6 + n, 0, 1, 0, 1, res // 256, res % 256] +
                [c.int("pad%d" % i, 0, 255) for i in range(n)] +
                [77, 84, 114, 107, 0, 0, len(body) // 256, len(body) % 256] + body)
        f = c.path("y.mid")
        c.writebytes(f, data)
        back = m.read_midifile(f)
        c.check("foreign", c.And(len(back) == 1, back.resolution == res, back.frmt == 1))
        c.check("foreign", len(back[0]) == len(specs))
        for e, k, sp in zip(back[0], P["kinds"], specs):
            compare(c, m, "foreign", e, k, sp)
        c.observe("data", data)
    elif op == "fields":
        k = P["kind"]
        u, v = c.int("u", 0, 127), c.int("v", 0, 127)
        chan = c.int("c", 0, 15)

        def two(cls, a, b, **kw):
            e = cls(**dict(kw, **{a: u, b: v}))
            c.check("fields", c.And(getattr(e, a) == u, getattr(e, b) == v))
            setattr(e, a, v)
            c.check("fields", c.And(getattr(e, a) == v, getattr(e, b) == v, len(e.data) == 2))
            setattr(e, b, u)
            c.check("fields", c.And(getattr(e, a) == v, getattr(e, b) == u))
            return e
        if k in ("on", "off"):
            e = two(m.NoteOnEvent if k == "on" else m.NoteOffEvent, "pitch", "velocity", channel=chan, tick=7)
            c.check("fields", c.And(e.get_velocity() == u, e.get_pitch() == v, e.channel == chan, e.tick == 7))
            # events share no data
            c.check("fields", m.NoteOnEvent().pitch == 0 and m.NoteOnEvent().velocity == 0)
        elif k == "at":
            two(m.AfterTouchEvent, "pitch", "value", channel=chan)
        elif k == "cc":
            two(m.ControlChangeEvent, "control", "value", channel=chan)
        elif k in ("pc", "cat"):
            e = (m.ProgramChangeEvent if k == "pc" else m.ChannelAfterTouchEvent)(value=u, channel=chan)
            c.check("fields", c.And(e.value == u, len(e.data) == 1, e.data[0] == u))
            e.value = v
            c.check("fields", e.value == v)
        elif k == "pw":
            w = c.int("w", -0x2000, 0x1FFF)
            e = m.PitchWheelEvent(pitch=w, channel=chan)
            c.check("fields", c.And(e.pitch == w, e.data[0] >= 0, e.data[0] < 128, e.data[1] >= 0, e.data[1] < 128))
            c.check("fields", e.data[0] + 128 * e.data[1] == w + 0x2000)
        elif k == "tempo":
            q = c.int("q", 0, 0xFFFFFF)
            e = m.SetTempoEvent(mpqn=q)
            c.check("fields", c.And(e.mpqn == q, len(e.data) == 3,
                                    e.data[0] * 65536 + e.data[1] * 256 + e.data[2] == q))
        elif k == "bpm":
            bpm = c.choice("bpm", [4, 30, 59.5, 60, 90, 100, 120, 128, 133.25, 174, 240, 300, 960])
            e = m.SetTempoEvent(bpm=bpm)
            c.check("fields", abs(e.mpqn - 6e7 / bpm) <= 1 and abs(6e7 / e.bpm - 6e7 / bpm) <= 1)
        elif k == "metre":
            den = c.choice("den", [1, 2, 4, 8, 16, 32, 64, 128])
            e = m.TimeSignatureEvent(numerator=u, denominator=den, metronome=v, thirtyseconds=8)
            c.check("fields", c.And(e.numerator == u, e.denominator == den, e.metronome == v, e.thirtyseconds == 8,
                                    2 ** c.value(e.data[1]) == den))
        elif k == "key":
            a, mi = c.int("a", -7, 7), c.int("mi", 0, 1)
            e = m.KeySignatureEvent(alternatives=a, minor=mi)
            c.check("fields", c.And(e.alternatives == a, e.minor == mi, e.data[0] >= 0, e.data[0] < 256,
                                    e.data[0] == c.If(a < 0, a + 256, a)))
        else:
            e = m.TrackNameEvent(text="Bass 1")
            c.check("fields", e.text == "Bass 1" and list(e.data) == [66, 97, 115, 115, 32, 49])
            e.text = "x"
            c.check("fields", e.text == "x" and list(e.data) == [120])
            alls = "".join(map(chr, range(256)))
            e.text = alls
            c.check("fields", e.text == alls and list(e.data) == list(range(256)))
            for name in ("TextMetaEvent", "TrackNameEvent", "LyricsEvent"):
                e = getattr(m, name)(text=alls[128:], tick=3)
                c.check("fields", e.text == alls[128:] and list(e.data) == list(range(128, 256)) and e.tick == 3)
        c.observe("u", (u, v))
    else:
        n = P["n"]
        ts = [c.int("t%d" % i, 0, 10000) for i in range(n)]
        us = [c.int("u%d" % i, 0, 10000) for i in range(n)]
        pat = m.Pattern(tracks=[m.Track([m.NoteOnEvent(tick=t, pitch=i) for i, t in enumerate(l)]) for l in (ts, us)])
        c.check("ticks", all(len(t) == n for t in pat) and len(pat) == 2)
        pat.make_ticks_abs()
        for tr, l in zip(pat, (ts, us)):
            tot = 0
            for i, (e, t) in enumerate(zip(tr, l)):
                tot = tot + t
                c.check("ticks", c.And(e.tick == tot, e.pitch == i))
        pat.make_ticks_abs()
        pat.make_ticks_rel()
        for tr, l in zip(pat, (ts, us)):
            c.check("ticks", c.eq([e.tick for e in tr], l))
        pat.make_ticks_rel()
        c.check("ticks", c.And(*[c.eq([e.tick for e in tr], l) for tr, l in zip(pat, (ts, us))]))
        c.observe("t", [[e.tick for e in tr] for tr in pat])
