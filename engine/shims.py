"""Builtins and library stand-ins given to the code under test."""
import builtins
import collections as _collections
import collections.abc as _cabc
import copy as _copy
import itertools as _itertools
import math as _math
import numbers as _numbers
import re
import string
import struct as _struct
import sys as _sys
from fractions import Fraction
from . import sym
from .sym import SNum, SBool, SStr, tonum, mknum, mkbool, bcond, cand, ite, hassym, issym

_MISSING = object()


# -- types -------------------------------------------------------------------
def typeof(x):
    if isinstance(x, SBool):
        return bool
    if isinstance(x, SNum):
        return float if x.isf else int
    if isinstance(x, SStr):
        return str
    if isinstance(x, SymBytes):
        return bytes
    if isinstance(x, SymByteArray):
        return bytearray
    return type(x)


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        return issubclass(typeof(x), cls._real)

    def __subclasscheck__(cls, c):
        return issubclass(getattr(c, "_real", c), cls._real)

    def __eq__(cls, o):
        return getattr(o, "_real", o) is cls._real

    def __ne__(cls, o):
        return not cls == o

    def __hash__(cls):
        return hash(cls._real)

    def __getattr__(cls, name):
        return getattr(cls._real, name)

    def __repr__(cls):
        return repr(cls._real)


class sv_int(metaclass=_TypeMeta):
    _real = int
    __name__ = "int"

    def __new__(cls, x=0, *a):
        if isinstance(x, SNum):
            return x.__trunc__()
        if isinstance(x, SBool):
            return tonum(x)
        if isinstance(x, SStr):
            v = x._single()
            if v is not None and not a:
                return v
            x = str(x)
        return int(x, *a)

    @staticmethod
    def from_bytes(b, byteorder="big", signed=False):
        l = list(b)
        if byteorder == "little":
            l = l[::-1]
        r = 0
        for v in l:
            r = r * 256 + v
        if signed and l:
            if r >= 1 << (8 * len(l) - 1):
                r = r - (1 << (8 * len(l)))
        return r


class sv_float(metaclass=_TypeMeta):
    _real = float
    __name__ = "float"

    def __new__(cls, x=0.0):
        if isinstance(x, SNum):
            return SNum(x.n, x.d, True)
        if isinstance(x, SBool):
            return SNum(tonum(x).n, 1, True)
        if isinstance(x, SStr):
            x = str(x)
        return float(x)


class sv_bool(metaclass=_TypeMeta):
    _real = bool
    __name__ = "bool"

    def __new__(cls, x=False):
        if isinstance(x, SBool):
            return x
        if isinstance(x, SNum):
            return x != 0
        return bool(x)


class sv_str(metaclass=_TypeMeta):
    _real = str
    __name__ = "str"

    def __new__(cls, x="", *a, **k):
        if isinstance(x, SStr):
            return x
        if isinstance(x, (SNum, SBool)):
            return SStr([(x, str)])
        if isinstance(x, (SymBytes, SymByteArray)) and (a or k):
            return x.decode(*a, **k)
        return str(x, *a, **k)


def sv_repr(x):
    if isinstance(x, (SNum, SBool)):
        return SStr([(x, repr)])
    return repr(x)


def sv_isinstance(x, c):
    if isinstance(c, tuple):
        return any(sv_isinstance(x, y) for y in c)
    if issym(x) or isinstance(x, (SymBytes, SymByteArray)):
        if isinstance(c, type) and issubclass(c, (SNum, SBool, SStr)):
            return isinstance(x, c)
        return issubclass(typeof(x), getattr(c, "_real", c))
    return isinstance(x, getattr(c, "_real", c))


def sv_issubclass(a, c):
    if isinstance(c, tuple):
        return any(sv_issubclass(a, y) for y in c)
    return issubclass(getattr(a, "_real", a), getattr(c, "_real", c))


class _TypeType(type):
    def __instancecheck__(cls, x):
        return isinstance(x, type)

    def __subclasscheck__(cls, c):
        return issubclass(c, type)

    def __eq__(cls, o):
        return o is type or o is sv_type

    def __hash__(cls):
        return hash(type)


def sv_type_factory():
    class svt(type):
        pass
    return svt


def _sv_type1(x):
    t = typeof(x)
    return _WRAP.get(t, t)


class sv_type(metaclass=_TypeType):
    def __new__(cls, *a, **k):
        if len(a) == 1:
            return _sv_type1(a[0])
        return type(*a, **k)


# -- numbers ------------------------------------------------------------------
def _numericlike(x):
    return isinstance(x, (SNum, SBool)) or (isinstance(x, (int, float)) and
                                            not (isinstance(x, float) and (_math.isinf(x) or _math.isnan(x))))


def _fold(items, pick_second):
    """pick_second(best, x) -> bool/SBool : x replaces best."""
    items = list(items)
    if 2 < len(items) <= 64:
        kept = []      # drop the values that the ranges of the inputs alone rule out
        for x in items:
            if any(pick_second(k, x) is False for k in kept):
                continue
            kept = [k for k in kept if pick_second(k, x) is not True] + [x]
        items = kept
    it = iter(items)
    best = next(it)
    for x in it:
        c = pick_second(best, x)
        if isinstance(c, SBool):
            best = ite(c.e, x, best)
        elif c:
            best = x
    return best


def _minmax(real, better):
    def f(*args, **kw):
        items = list(args[0]) if len(args) == 1 else list(args)
        if kw.get("key") is not None or not items or \
                not all(_numericlike(x) for x in items) or \
                not any(isinstance(x, (SNum, SBool)) for x in items):
            if len(args) == 1:
                return real(items, **kw)
            return real(*items, **kw)
        return _fold(items, better)
    return f


sv_max = _minmax(max, lambda b, x: x > b)
sv_min = _minmax(min, lambda b, x: x < b)


def sv_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def sv_round(x, nd=None):
    if isinstance(x, SBool):
        x = tonum(x)
    if isinstance(x, SNum):
        return x.__round__(nd)
    return round(x, nd) if nd is not None else round(x)


def sv_pow(a, b, m=None):
    r = a ** b
    return r if m is None else r % m


def sv_chr(x):
    if isinstance(x, SNum) and not x.isf:
        if not (mkbool(cand([bcond(x >= 0), bcond(x <= 0x10FFFF)]))):
            raise ValueError("chr() arg not in range(0x110000)")
        return SStr([(x, chr)])
    return chr(x)


def sv_ord(x):
    if isinstance(x, (SymBytes, SymByteArray)):
        if len(x) != 1:
            raise TypeError("ord() expected a character")
        return x[0]
    if isinstance(x, SStr):
        l = x._chars()
        if l is not None:
            if len(l) != 1:
                raise TypeError("ord() expected a character")
            return l[0]
    return ord(x)


def sv_hash(x):
    return hash(x)


class Sink(object):
    """Stands in for sys.stdout while a harness records what is printed."""

    def __init__(self): self.parts = []
    def write(self, s): self.parts.append(s)
    def flush(self): pass
    def isatty(self): return False

    def text(self):
        r = ""
        for s in self.parts:
            r = r + s
        return r._value() if isinstance(r, SStr) else r


def sv_print(*a, **k):
    out = k.get("file")
    out = _sys.stdout if out is None else out
    if isinstance(out, Sink):
        sep, end = k.get("sep"), k.get("end")
        for i, x in enumerate(a):
            if i:
                out.write(" " if sep is None else sep)
            out.write(sv_str(x))
        out.write("\n" if end is None else end)


class SymRange(object):
    """range() whose bounds may be symbolic: iterating forks on 'one more'."""

    def __init__(self, *a):
        for x in a:
            if isinstance(x, SNum) and x.isf or isinstance(x, float):
                raise TypeError("'float' object cannot be interpreted as an integer")
            if not isinstance(x, (int, SNum, SBool)) and not hasattr(x, "__index__"):
                raise TypeError("object cannot be interpreted as an integer")
        a = [x if isinstance(x, (SNum, int)) else x.__index__() for x in a]
        if len(a) == 1:
            self.start, self.stop, self.step = 0, a[0], 1
        else:
            self.start, self.stop = a[0], a[1]
            self.step = a[2] if len(a) > 2 else 1
        if isinstance(self.step, SNum):
            self.step = self.step._value()
        if self.step == 0:
            raise ValueError("range() arg 3 must not be zero")

    def __iter__(self):
        i = self.start
        if self.step > 0:
            while i < self.stop:
                yield i
                i = i + self.step
        else:
            while i > self.stop:
                yield i
                i = i + self.step

    def _conc(self):
        f = lambda v: v._value() if isinstance(v, SNum) else v
        return range(f(self.start), f(self.stop), self.step)

    def __len__(self): return len(self._conc())
    def __getitem__(self, i): return self._conc()[i]
    def __reversed__(self): return reversed(self._conc())

    def __contains__(self, x):
        return bool(mkbool(cand([bcond(x >= self.start), bcond(x < self.stop)]))) and \
            bool((x - self.start) % self.step == 0) if self.step > 0 else x in self._conc()

    def __eq__(self, o): return list(self) == list(o)
    __hash__ = None


def sv_range(*a):
    if any(isinstance(x, (SNum, SBool)) for x in a):
        return SymRange(*a)
    return range(*a)


# -- containers ----------------------------------------------------------------
class Box(object):
    """Identity-hashed holder of a symbolic key."""
    __slots__ = ("k",)

    def __init__(self, k): self.k = k


def _comparable(a, b):
    ta, tb = isinstance(a, (SNum, SBool, int, float)), isinstance(b, (SNum, SBool, int, float))
    if ta or tb:
        return ta and tb
    sa, sb = isinstance(a, (SStr, str)), isinstance(b, (SStr, str))
    if sa or sb:
        return sa and sb
    return True


class SymDict(dict):
    """dict that also takes symbolic keys (compared with forking ==)."""

    def __init__(self, *a, **k):
        dict.__init__(self)
        self._nsym = 0
        if a:
            self.update(*a)
        if k:
            self.update(k)

    def _find(self, key):
        if not hassym(key):
            if dict.__contains__(self, key):
                return key
            if not self._nsym:
                return _MISSING
            for raw in dict.__iter__(self):
                if isinstance(raw, Box) and _comparable(raw.k, key) and raw.k == key:
                    return raw
            return _MISSING
        for raw in dict.__iter__(self):
            k = raw.k if isinstance(raw, Box) else raw
            if k is key or (_comparable(k, key) and k == key):
                return raw
        return _MISSING

    def __setitem__(self, key, v):
        raw = self._find(key)
        if raw is _MISSING:
            raw = key
            if hassym(key):
                raw = Box(key)
                self._nsym += 1
        dict.__setitem__(self, raw, v)

    def __getitem__(self, key):
        raw = self._find(key)
        if raw is _MISSING:
            return self.__missing__(key)
        return dict.__getitem__(self, raw)

    def __missing__(self, key):
        raise KeyError(key)

    def __contains__(self, key):
        return self._find(key) is not _MISSING

    def __delitem__(self, key):
        raw = self._find(key)
        if raw is _MISSING:
            raise KeyError(key)
        if isinstance(raw, Box):
            self._nsym -= 1
        dict.__delitem__(self, raw)

    def get(self, key, default=None):
        raw = self._find(key)
        return default if raw is _MISSING else dict.__getitem__(self, raw)

    def setdefault(self, key, default=None):
        raw = self._find(key)
        if raw is not _MISSING:
            return dict.__getitem__(self, raw)
        self[key] = default
        return default

    def pop(self, key, *d):
        raw = self._find(key)
        if raw is _MISSING:
            if d:
                return d[0]
            raise KeyError(key)
        v = dict.__getitem__(self, raw)
        del self[key]
        return v

    def popitem(self):
        k = list(self)[-1]
        return k, self.pop(k)

    def update(self, *a, **k):
        if a:
            o = a[0]
            if hasattr(o, "keys"):
                for x in o.keys():
                    self[x] = o[x]
            else:
                for x, v in o:
                    self[x] = v
        for x, v in k.items():
            self[x] = v

    def clear(self):
        dict.clear(self)
        self._nsym = 0

    def __iter__(self):
        for raw in dict.__iter__(self):
            yield raw.k if isinstance(raw, Box) else raw

    def __reversed__(self):
        return iter(list(self)[::-1])

    def keys(self): return _cabc.KeysView(self)
    def items(self): return _cabc.ItemsView(self)
    def values(self): return _cabc.ValuesView(self)
    iterkeys = itervalues = iteritems = None

    def copy(self):
        r = type(self).__new__(type(self))
        SymDict.__init__(r)
        r.__dict__.update({a: b for a, b in self.__dict__.items() if a != "_nsym"})
        r.update(self)
        return r

    __copy__ = copy

    def __deepcopy__(self, memo):
        r = type(self).__new__(type(self))
        SymDict.__init__(r)
        memo[id(self)] = r
        r.__dict__.update({a: b for a, b in self.__dict__.items() if a != "_nsym"})
        for k, v in self.items():
            r[_copy.deepcopy(k, memo)] = _copy.deepcopy(v, memo)
        return r

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        for k, v in self.items():
            if k not in o or not (o[k] == v):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __repr__(self):
        return "{%s}" % ", ".join("%r: %r" % kv for kv in self.items())

    def __reduce__(self):
        return (SymDict, (list(self.items()),))


for _n in ("iterkeys", "itervalues", "iteritems"):
    delattr(SymDict, _n)


class SymDefaultDict(SymDict):
    def __init__(self, factory=None, *a, **k):
        SymDict.__init__(self, *a, **k)
        self.default_factory = factory

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        v = self[key] = self.default_factory()
        return v

    def __reduce__(self):
        return (SymDefaultDict, (self.default_factory, list(self.items())))


class SymCounter(SymDict):
    def __init__(self, it=None, **k):
        SymDict.__init__(self)
        self.update(it, **k)

    def update(self, it=None, **k):
        if it is not None:
            if hasattr(it, "keys"):
                for x in it.keys():
                    self[x] = self.get(x, 0) + it[x]
            else:
                for x in it:
                    self[x] = self.get(x, 0) + 1
        for x, v in k.items():
            self[x] = self.get(x, 0) + v

    def __missing__(self, key):
        return 0

    def most_common(self, n=None):
        l = sorted(self.items(), key=lambda kv: kv[1], reverse=True)
        return l if n is None else l[:n]

    def elements(self):
        for k, v in self.items():
            for _ in range(v):
                yield k

    def copy(self):
        r = SymCounter()
        for k, v in self.items():
            r[k] = v
        return r


class SymSet(_cabc.MutableSet):
    """Insertion-ordered set with forking == on symbolic members."""

    def __init__(self, it=()):
        self._d = SymDict()
        for x in it:
            self._d[x] = True

    @classmethod
    def _from_iterable(cls, it):
        return cls(it)

    def __contains__(self, x): return x in self._d
    def __iter__(self): return iter(self._d)
    def __len__(self): return len(self._d)
    def add(self, x): self._d.setdefault(x, True)
    def discard(self, x): self._d.pop(x, None)

    def remove(self, x):
        if x not in self._d:
            raise KeyError(x)
        del self._d[x]

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def union(self, *its):
        r = type(self)(self)
        r.update(*its) if hasattr(r, "update") else None
        return r

    def intersection(self, *its):
        r = type(self)(self)
        for it in its:
            it = list(it)
            r = type(self)([x for x in r if x in it])
        return r

    def difference(self, *its):
        r = type(self)(self)
        for it in its:
            it = list(it)
            r = type(self)([x for x in r if x not in it])
        return r

    def symmetric_difference(self, o):
        return self ^ SymSet(o)

    def issubset(self, o):
        o = list(o)
        return all(x in o for x in self)

    def issuperset(self, o): return all(x in self for x in o)
    def copy(self): return type(self)(self)
    __copy__ = copy

    def __deepcopy__(self, memo): return type(self)(_copy.deepcopy(list(self), memo))

    def difference_update(self, *its):
        for it in its:
            for x in list(it):
                self.discard(x)

    def intersection_update(self, *its):
        for it in its:
            it = list(it)
            for x in list(self):
                if x not in it:
                    self.discard(x)

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset, SymSet)):
            return NotImplemented
        return len(self) == len(o) and all(x in self for x in o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None
    def __repr__(self): return "{%s}" % ", ".join(map(repr, self))


class SymFrozenSet(SymSet):
    def __hash__(self): return hash(frozenset(self))


class sv_dict(metaclass=_TypeMeta):
    _real = dict
    __name__ = "dict"

    def __new__(cls, *a, **k):
        return SymDict(*a, **k)

    @staticmethod
    def fromkeys(it, v=None):
        r = SymDict()
        for x in it:
            r[x] = v
        return r


class _SetMeta(_TypeMeta):
    def __instancecheck__(cls, x):
        return isinstance(x, (set, SymSet)) and not isinstance(x, SymFrozenSet)

    def __subclasscheck__(cls, c):
        return c is SymSet or issubclass(getattr(c, "_real", c), set)


class sv_set(metaclass=_SetMeta):
    _real = set
    __name__ = "set"

    def __new__(cls, it=()):
        return SymSet(it)


class _FSetMeta(_TypeMeta):
    def __instancecheck__(cls, x):
        return isinstance(x, (frozenset, SymFrozenSet))


class sv_frozenset(metaclass=_FSetMeta):
    _real = frozenset
    __name__ = "frozenset"

    def __new__(cls, it=()):
        l = list(it)
        return SymFrozenSet(l) if hassym(l) else frozenset(l)


# -- bytes ----------------------------------------------------------------------
def _checkbyte(v, what):
    if isinstance(v, SNum):
        if v.isf:
            raise TypeError("'float' object cannot be interpreted as an integer")
        if not (mkbool(cand([bcond(v >= 0), bcond(v <= 255)]))):
            raise ValueError("byte must be in range(0, 256)")
        return v
    if isinstance(v, SBool):
        return tonum(v)
    if not hasattr(v, "__index__"):
        raise TypeError("%r object cannot be interpreted as an integer" % type(v).__name__)
    v = v.__index__()
    if not 0 <= v <= 255:
        raise ValueError("byte must be in range(0, 256)")
    return v


_CODEC = {"latin-1": 256, "latin1": 256, "latin_1": 256, "iso-8859-1": 256, "iso8859-1": 256, "ascii": 128,
          "us-ascii": 128, "utf-8": 128, "utf8": 128}


def encode_text(x, encoding="utf-8", errors="strict"):
    """bytes of a text that may have symbolic characters."""
    if isinstance(x, SStr):
        l = x._chars()
        lim = _CODEC.get(str(encoding).lower())
        if l is not None and lim:
            if all(not isinstance(v, SNum) or mkbool(bcond(v < lim)) for v in l):
                if all(isinstance(v, SNum) or v < lim for v in l):
                    return SymBytes(l)
        return SymBytes(list(str(x).encode(encoding, errors)))
    return x.encode(encoding, errors)


class SymBytes(object):
    _symbolic_bytes_ = True
    _mutable = False

    def __init__(self, l):
        self.l = l

    @property
    def _symbolic_(self): return any(issym(x) for x in self.l)

    @classmethod
    def make(cls, x=(), *a):
        if isinstance(x, (str, SStr)):
            if not a:
                raise TypeError("string argument without an encoding")
            return cls(list(encode_text(x, *a)))
        if isinstance(x, SymBytes):
            return cls(list(x.l))
        if isinstance(x, (int, SNum)) and not isinstance(x, bool):
            if isinstance(x, SNum):
                x = x.__index__()
            return cls([0] * x)
        return cls([_checkbyte(v, cls) for v in x])

    def __len__(self): return len(self.l)
    def __iter__(self): return iter(self.l)
    def __bool__(self): return bool(self.l)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return type(self)(self.l[i])
        return self.l[i]

    def _other(self, o):
        if isinstance(o, SymBytes):
            return o.l
        if isinstance(o, (bytes, bytearray)):
            return list(o)
        return None

    def __eq__(self, o):
        l = self._other(o)
        if l is None:
            return False
        if len(l) != len(self.l):
            return False
        return mkbool(cand([bcond(a == b) for a, b in zip(self.l, l)]))

    def __ne__(self, o): return sym.notx(self.__eq__(o))

    def __hash__(self): return hash(bytes(int(x) for x in self.l))

    def __add__(self, o):
        l = self._other(o)
        if l is None:
            if isinstance(o, (str, SStr)):
                raise TypeError("can't concat str to bytes")
            return NotImplemented
        return type(self)(self.l + l)

    def __radd__(self, o):
        l = self._other(o)
        if l is None:
            if isinstance(o, (str, SStr)):
                raise TypeError('can only concatenate str (not "bytes") to str')
            return NotImplemented
        return type(self)(l + self.l)

    def __mul__(self, n): return type(self)(self.l * n)
    __rmul__ = __mul__

    def __contains__(self, x):
        return any(a == x for a in self.l)

    def _conc(self): return bytes(int(x) for x in self.l)

    def decode(self, *a, **k):
        lim = _CODEC.get(str(a[0] if a else k.get("encoding", "utf-8")).lower())
        if lim and any(isinstance(v, SNum) for v in self.l):
            if all(not isinstance(v, SNum) or lim == 256 or mkbool(bcond(v < lim)) for v in self.l):
                if all(isinstance(v, SNum) or v < lim for v in self.l):
                    return SStr([(v, chr) if isinstance(v, SNum) else chr(v) for v in self.l])
        return self._conc().decode(*a, **k)

    def startswith(self, p):
        if isinstance(p, tuple):
            return any(self.startswith(q) for q in p)
        l = self._other(p)
        return len(l) <= len(self.l) and bool(type(self)(self.l[:len(l)]) == p)

    def join(self, it):
        out = []
        for i, x in enumerate(it):
            if i:
                out += self.l
            out += SymBytes.make(x).l
        return type(self)(out)

    def index(self, x):
        for i, a in enumerate(self.l):
            if a == x:
                return i
        raise ValueError("subsection not found")

    def find(self, x):
        x = list(x) if not isinstance(x, (int, SNum)) else [x]
        for i in range(len(self.l) - len(x) + 1):
            if all(a == b for a, b in zip(self.l[i:], x)):
                return i
        return -1

    def rstrip(self, *a): return self.make(self._conc().rstrip(*a))
    def strip(self, *a): return self.make(self._conc().strip(*a))
    def hex(self): return self._conc().hex()
    def count(self, x): return sum(1 for a in self.l if a == x)
    def tolist(self): return list(self.l)
    def tobytes(self): return SymBytes(list(self.l))
    def __copy__(self): return type(self)(list(self.l))
    def __deepcopy__(self, memo): return type(self)(list(self.l))
    def __repr__(self): return "SymBytes(%r)" % (self.l,)


class SymByteArray(SymBytes):
    _mutable = True
    __hash__ = None

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            self.l[i] = list(SymBytes.make(v))
        else:
            self.l[i] = _checkbyte(v, None)

    def __delitem__(self, i): del self.l[i]
    def append(self, v): self.l.append(_checkbyte(v, None))

    def extend(self, it):
        self.l.extend(_checkbyte(v, None) for v in (it.l if isinstance(it, SymBytes) else it))

    def __iadd__(self, o):
        l = self._other(o)
        if l is None:
            if isinstance(o, (str, SStr)):
                raise TypeError("can't concat str to bytearray")
            l = [_checkbyte(v, None) for v in o]
        self.l.extend(l)
        return self

    def pop(self, i=-1): return self.l.pop(i)
    def insert(self, i, v): self.l.insert(i, _checkbyte(v, None))
    def reverse(self): self.l.reverse()
    def clear(self): self.l.clear()


class sv_bytes(metaclass=_TypeMeta):
    _real = bytes
    __name__ = "bytes"

    def __new__(cls, *a, **k):
        return SymBytes.make(*a, **k)


class sv_bytearray(metaclass=_TypeMeta):
    _real = bytearray
    __name__ = "bytearray"

    def __new__(cls, *a, **k):
        return SymByteArray.make(*a, **k)


_WRAP = {int: sv_int, float: sv_float, str: sv_str, bool: sv_bool, dict: sv_dict,
         set: sv_set, bytes: sv_bytes, bytearray: sv_bytearray, SymDict: sv_dict,
         SymSet: sv_set, SymFrozenSet: sv_frozenset, frozenset: sv_frozenset,
         SymRange: range}


# -- struct ----------------------------------------------------------------------
class StructStub(object):
    error = _struct.error
    SZ = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8,
          "Q": 8, "c": 1}

    @classmethod
    def _fields(cls, fmt):
        fmt = str(fmt) if not isinstance(fmt, bytes) else fmt.decode()
        order = "<"
        if fmt and fmt[0] in "<>=!@":
            order = ">" if fmt[0] in ">!" else "<"
            fmt = fmt[1:]
        out, num = [], ""
        for ch in fmt:
            if ch.isdigit():
                num += ch
            elif ch == " ":
                continue
            elif ch == "s":
                out.append(("s", int(num or 1)))
                num = ""
            else:
                if ch != "x" and ch not in cls.SZ:
                    sym.raise_unsupported("struct format %r" % ch)
                out += [(ch, 1 if ch == "x" else cls.SZ[ch])] * int(num or 1)
                num = ""
        return order, out

    @classmethod
    def calcsize(cls, fmt): return sum(n for _, n in cls._fields(fmt)[1])

    @classmethod
    def pack(cls, fmt, *vals):
        order, fields = cls._fields(fmt)
        out, vals = [], list(vals)
        for ch, n in fields:
            if ch == "x":
                out.append(0)
                continue
            if not vals:
                raise cls.error("pack expected more items for packing")
            v = vals.pop(0)
            if ch == "s":
                if isinstance(v, (str, SStr)):
                    raise cls.error("argument for 's' must be a bytes object")
                b = list(v)[:n]
                out += b + [0] * (n - len(b))
                continue
            if ch == "c":
                out.append(v[0])
                continue
            if isinstance(v, float) or (isinstance(v, SNum) and v.isf) or isinstance(v, (str, SStr)):
                raise cls.error("required argument is not an integer")
            lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if ch.islower() else (0, (1 << 8 * n) - 1)
            if not (v >= lo) or not (v <= hi):
                raise cls.error("argument out of range")
            u = v % (1 << 8 * n)
            b = [(u // (1 << (8 * i))) % 256 for i in range(n)]
            out += b if order == "<" else b[::-1]
        if vals:
            raise cls.error("pack expected fewer items for packing")
        return SymBytes(out)

    @classmethod
    def unpack(cls, fmt, data):
        order, fields = cls._fields(fmt)
        l = list(data)
        if len(l) != sum(n for _, n in fields):
            raise cls.error("unpack requires a buffer of %d bytes" % sum(n for _, n in fields))
        out, p = [], 0
        for ch, n in fields:
            b = l[p:p + n]
            p += n
            if ch == "x":
                continue
            if ch in "sc":
                out.append(SymBytes(b))
                continue
            if order == ">":
                b = b[::-1]
            v = 0
            for i, x in enumerate(b):
                v = v + x * (1 << 8 * i)
            if ch.islower():
                if v >= (1 << (8 * n - 1)):
                    v = v - (1 << 8 * n)
            out.append(v)
        return tuple(out)

    @classmethod
    def unpack_from(cls, fmt, data, offset=0):
        n = cls.calcsize(fmt)
        return cls.unpack(fmt, data[offset:offset + n])


class CodecsStub(object):
    def __getattr__(self, n):
        import codecs
        return getattr(codecs, n)

    @staticmethod
    def latin_1_encode(x, errors="strict"):
        return encode_text(x, "latin-1", errors), len(x)

    @staticmethod
    def encode(x, encoding="utf-8", errors="strict"):
        return encode_text(x, encoding, errors)

    @staticmethod
    def decode(x, encoding="utf-8", errors="strict"):
        return x.decode(encoding, errors)


class MathStub(object):
    def __getattr__(self, n):
        return getattr(_math, n)

    @staticmethod
    def ceil(x):
        return x.__ceil__() if isinstance(x, SNum) else _math.ceil(x)

    @staticmethod
    def floor(x):
        return x.__floor__() if isinstance(x, SNum) else _math.floor(x)

    @staticmethod
    def trunc(x):
        return x.__trunc__() if isinstance(x, SNum) else _math.trunc(x)

    @staticmethod
    def fabs(x): return abs(x) * 1.0

    @staticmethod
    def fmod(a, b):
        if issym(a) or issym(b):
            q = (a / b)
            q = q.__trunc__() if isinstance(q, SNum) else int(q)
            return a - b * q
        return _math.fmod(a, b)

    @staticmethod
    def modf(a):
        if isinstance(a, SNum):
            i = a.__trunc__() * 1.0
            return (a - i, i)
        return _math.modf(a)

    @staticmethod
    def isclose(a, b, rel_tol=1e-09, abs_tol=0.0):
        if issym(a) or issym(b):
            return abs(a - b) <= sv_max(rel_tol * sv_max(abs(a), abs(b)), abs_tol)
        return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)

    @staticmethod
    def fsum(it): return sv_sum(it, 0.0)

    @staticmethod
    def isinf(x): return False if issym(x) else _math.isinf(x)

    @staticmethod
    def isnan(x): return False if issym(x) else _math.isnan(x)

    @staticmethod
    def gcd(a, b): return _math.gcd(int(a), int(b))


class CollectionsStub(object):
    defaultdict = SymDefaultDict
    OrderedDict = SymDict
    Counter = SymCounter

    def __getattr__(self, n):
        return getattr(_collections, n)


class NullLogger(object):
    def getEffectiveLevel(self): return 30
    level = 0
    handlers = ()

    def __getattr__(self, n):
        return lambda *a, **k: None

    def isEnabledFor(self, l): return False
    def getEffectiveLevel(self): return 30


class LoggingStub(object):
    DEBUG, INFO, WARNING, WARN, ERROR, CRITICAL, FATAL, NOTSET = 10, 20, 30, 30, 40, 50, 50, 0

    class Formatter(object):
        def __init__(self, *a, **k): pass

    class Logger(NullLogger):
        def __init__(self, *a, **k): pass

    class StreamHandler(NullLogger):
        def __init__(self, *a, **k): pass

    @staticmethod
    def getLogger(*a): return NullLogger()

    @staticmethod
    def setLoggerClass(c): pass

    def __getattr__(self, n):
        return lambda *a, **k: None


# -- string formatting --------------------------------------------------------------
def _lazy(x):
    return isinstance(x, (SNum, SBool, SStr)) or _deepsym(x)


def _deepsym(x, depth=3):
    if isinstance(x, (SNum, SBool, SStr)):
        return True
    if depth and isinstance(x, (list, tuple)):
        return any(_deepsym(y, depth - 1) for y in x)
    if depth and isinstance(x, dict):
        return any(_deepsym(y, depth - 1) for kv in x.items() for y in kv)
    return hasattr(x, "__dict__") and not isinstance(x, type)


def sv_div(a, b):
    # a list divided by a numpy number is an array; a number out of an array of objects may have become a
    # number of the executor or a plain one here
    if isinstance(a, list) and isinstance(b, (SNum, float)):
        import numpy
        return numpy.array(a, dtype=object) / b
    return a / b


_SPEC = re.compile(r"%(?:%|([-#0 +]*\d*(?:\.\d+)?)([diouxXeEfFgGcrsa]))")


def _piece(v, f):
    """The string f(v), where v may be symbolic, as a part."""
    return (v, f) if _lazy(v) else f(v)


def sv_mod(l, r):
    if isinstance(l, (str, SStr)):
        items = r if isinstance(r, tuple) else (r,)
        if isinstance(l, SStr) or any(_lazy(x) for x in items):
            if isinstance(l, str) and not isinstance(r, (dict, SymDict)) and "%(" not in l:
                out, at, k = [], 0, 0
                for m in _SPEC.finditer(l):
                    out.append(l[at:m.start()])
                    at = m.end()
                    if m.group() == "%%":
                        out.append("%")
                        continue
                    if k == len(items):
                        raise TypeError("not enough arguments for format string")
                    v, spec, kind = items[k], m.group(1), m.group(2)
                    k += 1
                    if not spec and kind == "s" and isinstance(v, SStr):
                        out += v.parts
                    elif not spec and (kind in "di" and isinstance(v, SNum) and not v.isf or
                                       kind in "sr" and isinstance(v, SNum)):
                        out.append((v, str))
                    else:
                        out.append(_piece(v, lambda x, f="%" + spec + kind: f % ((x,))))
                out.append(l[at:])
                if not any("%" in l[a:b] for a, b in _gaps(l)):
                    if k < len(items):
                        raise TypeError("not all arguments converted during string formatting")
                    return SStr(out)
            t = isinstance(r, tuple)
            return SStr([((l, r), lambda lr: str(lr[0]) % (tuple(lr[1]) if t else lr[1]))])
    return l % r


def _gaps(l):
    at = 0
    for m in _SPEC.finditer(l):
        yield at, m.start()
        at = m.end()
    yield at, len(l)


def sv_fstr(parts):
    """parts: str or (value, conversion, spec)."""
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        v, conv, spec = p
        if isinstance(v, SStr) and conv in (-1, 115) and not spec:
            out += v.parts
            continue
        if isinstance(v, SNum) and not spec and conv in (-1, 115, 114):
            out.append((v, str))
            continue

        def f(v, conv=conv, spec=spec):
            v = repr(v) if conv == 114 else (ascii(v) if conv == 97 else (str(v) if conv == 115 else v))
            return format(v, spec)
        if _lazy(v):
            out.append((v, f))
        else:
            out.append(f(v))
    s = SStr(out)
    if all(isinstance(p, str) for p in s.parts):
        return "".join(s.parts)
    return s


def sv_format(obj, *a, **k):
    if isinstance(obj, (str, SStr)) and (any(_lazy(x) for x in a) or any(_lazy(x) for x in k.values())):
        if isinstance(obj, str) and not k:
            parts, auto, plain = [], 0, True
            for text, field, spec, conv in string.Formatter().parse(obj):
                parts.append(text)
                if field is None:
                    continue
                if field == "":
                    i, auto = auto, auto + 1
                elif field.isdigit():
                    i = int(field)
                else:
                    plain = False
                    break
                if i >= len(a) or "{" in spec:
                    plain = False
                    break
                parts.append((a[i], {None: -1, "s": 115, "r": 114, "a": 97}[conv], spec))
            if plain:
                return sv_fstr(parts)
        return SStr([((obj, a, k), lambda t: str(t[0]).format(*t[1], **t[2]))])
    return obj.format(*a, **k)


def sv_join(sep, *a, **k):
    if sep is sv_str and len(a) == 2:
        sep, a = a[0], a[1:]
    if isinstance(sep, (str, SStr)) and len(a) == 1:
        items = list(a[0])
        if any(isinstance(x, SStr) for x in items):
            out = []
            for i, x in enumerate(items):
                if i:
                    out += sep.parts if isinstance(sep, SStr) else [sep]
                if isinstance(x, SStr):
                    out += x.parts
                elif isinstance(x, str):
                    out.append(x)
                else:
                    raise TypeError("sequence item %d: expected str instance" % i)
            return SStr(out)
        return sep.join(items)
    if isinstance(sep, (bytes, bytearray)) and len(a) == 1:
        items = list(a[0])
        if any(isinstance(x, SymBytes) for x in items):
            return SymBytes(list(sep)).join(items)
        return sep.join(items)
    return sep.join(*a, **k)


def sv_mkdict(pairs):
    r = SymDict()
    for k, v in pairs:
        if k is _STAR:
            r.update(v)
        else:
            r[k] = v
    return r


_STAR = object()


def sv_mkset(items):
    return SymSet(items)


def sv_isconst(x, const, neg):
    if isinstance(x, SBool):
        r = bool(x) is const
    else:
        r = x is const
    return (not r) if neg else r


def sv_sorted(it, key=None, reverse=False):
    return sorted(it, key=key, reverse=reverse)
