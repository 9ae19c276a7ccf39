"""Environment stand-ins shared by symbolic runs (file system, json, pickle,
random).  In concrete replays the real file system, json and pickle are used."""
import fnmatch
import glob as _glob
import io
import os as _os
import pickle as _pickle
import json as _json
from . import sym, shims
from .sym import SNum, SBool, SStr, issym
from .shims import SymBytes, SymDict

ROOT = "/mem"


class Token(object):
    """Opaque file content standing for the text of a JSON document."""
    _symbolic_ = True

    def __init__(self, tree): self.tree = tree
    def __add__(self, o):
        if o == "\n":
            return self
        sym.raise_unsupported("text operation on JSON output")
    def encode(self, *a): return self
    def decode(self, *a): return self
    def strip(self, *a): return self
    def __str__(self): sym.raise_unsupported("text operation on JSON output")


class MemFS(object):
    def __init__(self):
        self.files = {}
        self.dirs = {ROOT}

    def norm(self, p):
        p = str(p)
        return _os.path.normpath(_os.path.join(ROOT, p))

    def open(self, path, mode="r", *a, **k):
        if isinstance(path, int):
            sym.raise_unsupported("open(fd)")
        p = self.norm(path)
        if not p.startswith(ROOT):
            if "w" in mode or "a" in mode or "+" in mode:
                sym.raise_unsupported("writing outside the scratch area: %s" % p)
            return io.open(path, mode, *a, **k)
        if "r" in mode and "+" not in mode:
            if p not in self.files:
                raise FileNotFoundError(2, "No such file or directory", path)
            return MemFile(self, p, mode, list(self.files[p]))
        if _os.path.dirname(p) not in self.dirs:
            raise FileNotFoundError(2, "No such file or directory", path)
        if "x" in mode and p in self.files:
            raise FileExistsError(17, "File exists", path)
        old = list(self.files.get(p, [])) if "a" in mode or "+" in mode else []
        self.files[p] = old
        return MemFile(self, p, mode, old)

    def exists(self, p):
        p = self.norm(p)
        return p in self.files or p in self.dirs


class MemFile(object):
    def __init__(self, fs, path, mode, content):
        self.fs, self.name, self.mode, self.c = fs, path, mode, content
        self.bin = "b" in mode
        self.closed = False
        self.pos = len(content) if "a" in mode else 0

    def write(self, x):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if "r" in self.mode and "+" not in self.mode:
            raise io.UnsupportedOperation("not writable")
        if isinstance(x, Token):
            items = [x]
        elif self.bin:
            if isinstance(x, (str, SStr)):
                raise TypeError("a bytes-like object is required, not 'str'")
            items = list(x)
        else:
            if not isinstance(x, (str, SStr)):
                raise TypeError("write() argument must be str, not %s" % type(x).__name__)
            items = list(x) if isinstance(x, str) else [x]
        self.c[self.pos:self.pos + len(items)] = items
        self.pos += len(items)
        self.fs.files[self.name] = self.c
        return len(items)

    def writelines(self, l):
        for x in l:
            self.write(x)

    def read(self, n=-1):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if "w" in self.mode and "+" not in self.mode:
            raise io.UnsupportedOperation("not readable")
        if n is None or n < 0:
            n = len(self.c) - self.pos
        part = self.c[self.pos:self.pos + n]
        self.pos += len(part)
        if any(isinstance(x, Token) for x in part):
            if len(part) == 1:
                return part[0]
            rest = [x for x in part if not isinstance(x, Token)]
            if all(x in ("\n", " ") for x in rest):
                return [x for x in part if isinstance(x, Token)][0]
            sym.raise_unsupported("mixed JSON file content")
        if self.bin:
            return SymBytes(part)
        if any(isinstance(x, SStr) for x in part):
            return SStr([q for x in part for q in (x.parts if isinstance(x, SStr) else [x])])
        return "".join(part)

    def readlines(self): return self.read().splitlines(True)
    def readline(self):
        sym.raise_unsupported("readline")
    def __iter__(self): return iter(self.readlines())
    def seek(self, p, w=0): self.pos = p if w == 0 else (self.pos + p if w == 1 else len(self.c) + p)
    def tell(self): return self.pos
    def flush(self): pass
    def close(self): self.closed = True
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def truncate(self, n=None): del self.c[self.pos if n is None else n:]
    def readable(self): return True
    def fileno(self): sym.raise_unsupported("fileno")


# -- json ----------------------------------------------------------------------
class JSONEncoder(object):
    def __init__(self, *a, **k): pass

    def default(self, o):
        raise TypeError("Object of type %s is not JSON serializable" % type(o).__name__)

    def encode(self, o): return Token(_enc(o, self.default, False))
    def iterencode(self, o, _one_shot=False): return iter([JSONEncoder.encode(self, o)])


def _key(k, skip):
    if isinstance(k, (str, SStr)):
        return k
    if isinstance(k, (SNum, SBool)):
        return SStr([(k, lambda v: _json.dumps({v: 0})[2:-5])]) if not isinstance(k, SNum) or k.isf else SStr([(k, str)])
    if k is None or isinstance(k, (bool, int, float)):
        return list(_json.loads(_json.dumps({k: 0})))[0]
    raise TypeError("keys must be str, int, float, bool or None, not %s" % type(k).__name__)


def _enc(o, default, skip, depth=0):
    if depth > 60:
        raise ValueError("Circular reference detected")
    if issym(o) or o is None or isinstance(o, (str, bool)):
        return o
    if isinstance(o, (int, float)) and type(o).__module__ == "builtins":
        return o
    if isinstance(o, float):
        return float(o)
    if isinstance(o, dict):
        return ("{", [(_key(k, skip), _enc(v, default, skip, depth + 1)) for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        return ("[", [_enc(v, default, skip, depth + 1) for v in o])
    return _enc(default(o), default, skip, depth + 1)


def _dec(t, hook, pairs_hook):
    if isinstance(t, tuple):
        if t[0] == "[":
            return [_dec(x, hook, pairs_hook) for x in t[1]]
        pairs = [(k, _dec(v, hook, pairs_hook)) for k, v in t[1]]
        if pairs_hook is not None:
            return pairs_hook(pairs)
        d = SymDict(pairs)
        return hook(d) if hook is not None else d
    return t


class JsonStub(object):
    JSONEncoder = JSONEncoder
    JSONDecodeError = _json.JSONDecodeError

    @staticmethod
    def dumps(o, default=None, cls=None, skipkeys=False, **k):
        if cls is not None:
            return cls(skipkeys=skipkeys, default=default, **k).encode(o)
        return Token(_enc(o, default or JSONEncoder().default, skipkeys))

    @staticmethod
    def dump(o, fp, cls=None, **k):
        if cls is None:
            fp.write(JsonStub.dumps(o, **k))
            return
        for chunk in cls(**k).iterencode(o):
            fp.write(chunk)

    @staticmethod
    def loads(s, object_hook=None, object_pairs_hook=None, **k):
        if isinstance(s, Token):
            return _dec(s.tree, object_hook, object_pairs_hook)
        if isinstance(s, SymBytes):
            s = s._conc()
        r = _json.loads(str(s) if isinstance(s, SStr) else s)
        return _dec(_enc(r, None, False), object_hook, object_pairs_hook)

    @staticmethod
    def load(fp, **k): return JsonStub.loads(fp.read(), **k)


# -- pickle ---------------------------------------------------------------------
class PickleStub(object):
    HIGHEST_PROTOCOL = _pickle.HIGHEST_PROTOCOL
    DEFAULT_PROTOCOL = _pickle.DEFAULT_PROTOCOL
    PickleError = _pickle.PickleError
    PicklingError = _pickle.PicklingError
    UnpicklingError = _pickle.UnpicklingError
    table = []

    @classmethod
    def dumps(cls, o, protocol=None, **k):
        f = io.BytesIO()

        class P(_pickle.Pickler):
            def persistent_id(self, x):
                if issym(x):
                    cls.table.append(x)
                    return len(cls.table) - 1
                return None
        P(f, protocol).dump(o)
        return SymBytes(list(f.getvalue()))

    @classmethod
    def dump(cls, o, fp, protocol=None, **k): fp.write(cls.dumps(o, protocol))

    @classmethod
    def loads(cls, b, **k):
        class U(_pickle.Unpickler):
            def persistent_load(self, i): return cls.table[i]
        return U(io.BytesIO(bytes(b.l if isinstance(b, SymBytes) else b))).load()

    @classmethod
    def load(cls, fp, **k):
        return cls.loads(fp.read())


# -- os / glob --------------------------------------------------------------------
class OsPathStub(object):
    def __init__(self, fs): self.fs = fs
    def __getattr__(self, n): return getattr(_os.path, n)

    def exists(self, p):
        return self.fs.exists(p) if self.fs.norm(p).startswith(ROOT) else _os.path.exists(p)

    def isfile(self, p):
        q = self.fs.norm(p)
        return q in self.fs.files if q.startswith(ROOT) else _os.path.isfile(p)

    def isdir(self, p):
        q = self.fs.norm(p)
        return q in self.fs.dirs if q.startswith(ROOT) else _os.path.isdir(p)

    def abspath(self, p): return self.fs.norm(p)


class OsStub(object):
    def __init__(self, fs):
        self.fs = fs
        self.path = OsPathStub(fs)

    def __getattr__(self, n):
        if n in ("sep", "linesep", "name", "environ", "fspath", "PathLike", "curdir", "extsep"):
            return getattr(_os, n)
        sym.raise_unsupported("os.%s" % n)

    def makedirs(self, p, *a, **k):
        q = self.fs.norm(p)
        if q in self.fs.dirs and not k.get("exist_ok"):
            raise FileExistsError(17, "File exists", p)
        while q != ROOT and q.startswith(ROOT):
            self.fs.dirs.add(q)
            q = _os.path.dirname(q)

    mkdir = makedirs

    def remove(self, p):
        q = self.fs.norm(p)
        if q not in self.fs.files:
            raise FileNotFoundError(2, "No such file or directory", p)
        del self.fs.files[q]
    unlink = remove

    def listdir(self, p="."):
        q = self.fs.norm(p)
        if q not in self.fs.dirs:
            raise FileNotFoundError(2, "No such file or directory", p)
        return [_os.path.basename(x) for x in list(self.fs.files) + sorted(self.fs.dirs)
                if _os.path.dirname(x) == q and x != q]

    def walk(self, top, topdown=True, **k):
        q = self.fs.norm(top)
        if q not in self.fs.dirs:
            return
        d = [x for x in self.listdir(q) if _os.path.join(q, x) in self.fs.dirs]
        f = [x for x in self.listdir(q) if _os.path.join(q, x) in self.fs.files]
        yield str(top), d, f
        for x in d:
            for y in self.walk(_os.path.join(str(top), x)):
                yield y

    def getcwd(self): return ROOT


class GlobStub(object):
    def __init__(self, fs): self.fs = fs

    def glob(self, pat, recursive=False, **k):
        q = self.fs.norm(pat)
        out = []
        pp = q.split("/")
        head = _os.path.split(str(pat))[0]
        plain = bool(head) and not any(x in head for x in "*?[")
        for f in list(self.fs.files) + sorted(self.fs.dirs):
            fp = f.split("/")
            if recursive and "**" in pp:
                if self._rec(pp, fp):
                    out.append(f)
            elif len(fp) == len(pp) and all(self._part(a, b) for a, b in zip(fp, pp)):
                # result paths keep the caller's folder
                out.append(_os.path.join(head, fp[-1]) if plain else f)
        return [str(f) for f in out]

    @staticmethod
    def _part(name, pat):
        if name.startswith(".") and not pat.startswith("."):
            return False
        return fnmatch.fnmatchcase(name, pat)

    def _rec(self, pp, fp):
        if not pp:
            return not fp
        if pp[0] == "**":
            return any(self._rec(pp[1:], fp[i:]) for i in range(len(fp) + 1))
        return bool(fp) and self._part(fp[0], pp[0]) and self._rec(pp[1:], fp[1:])

    def iglob(self, *a, **k): return iter(self.glob(*a, **k))
    def escape(self, p): return _glob.escape(p)


from .randstub import RandomStub, RandomModule  # noqa: E402,F401
