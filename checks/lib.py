"""Helpers shared by the harnesses (work on symbolic and on concrete values)."""

G = 1 << 14  # input times are multiples of 2^-14 beats


def rgs(n, k=None):
    """Restricted growth strings: partitions of n positions into named voices."""
    out = [[]]
    for i in range(n):
        nxt = []
        for s in out:
            m = max(s) + 1 if s else 0
            for v in range(m + 1):
                if k is None or v < k:
                    nxt.append(s + [v])
        out = nxt
    return out


TAGS = ["kick", "snare", "hat", "tom"]
# voices whose tags are names, have something in common, or are empty or false
FAMILIES = [TAGS, [("C", "maj"), ("G", "maj"), "maj", ("maj", "C")], [(), None, 0, ""], ["Conga", "LowConga", "Low", "on"]]


def mkpattern(c, evs, duration, **kw):
    """Pattern from (start, duration, pitch, velocity, tag) tuples."""
    gp = c.mod("gspattern")
    p = gp.Pattern(duration=duration, **kw)
    p.events = [gp.Event(s, d, pi, v, t) for s, d, pi, v, t in evs]
    return p


def flat(e):
    return (e.startTime, e.duration, e.pitch, e.velocity, e.tag)


def flats(p):
    return [flat(e) for e in p.events]


def crowd(P, evs, tags=TAGS, span=12, short=False):
    """The notes among P["crowd"] given ones."""
    k = P.get("crowd", 0)
    wide = P.get("wide", 7)
    if wide > 7:
        tags = ["w%d" % i for i in range(wide - 1)] + list(tags[:1])
    elif wide == 1:
        tags = tags[:1]
    more = [((i * 7 + 3) % (2 * span) / 2, 0.25 if short else 4 + i % 2 if wide == 1 else (i * 3 % 5 + 1) / 2, 60 + (i + (wide > 7)) % wide, 100 + i % 20, tags[i % len(tags)])
            for i in range(k)]
    return more[:k // 3] + evs[:1] + more[k // 3:] + evs[1:]
