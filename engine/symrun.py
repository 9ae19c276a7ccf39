"""Symbolic side: worker process that explores one case of one check."""
import importlib
import os
import random as _random
import signal
import sys
import time
import traceback
from . import sym, shims, env, load, api
from .sym import SNum, SBool, SStr, tonum, mknum, mkbool, bcond, cand, cor, cnot, econd, of_atom, ite, Stop, Unsupported, Engine

CTX = None


class SymCtx(api.Ctx):
    symbolic = True

    def __init__(self, eng, mods, fs, rnd):
        self.eng, self.mods, self.fs, self.rnd = eng, mods, fs, rnd
        self.obs = []
        self.pending = []
        self.decided, self.early = 0, None
        self.labels = {}

    # inputs ------------------------------------------------------------
    def _var(self, name, lo, hi):
        if hi < lo:
            self.eng.die(Stop("empty range"))
        return self.eng.var(name, lo, hi)

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        v = self._var(name, lo, hi)
        self.eng.inputs[name] = ("i", v)
        return SNum(of_atom(v), 1, False)

    def grid(self, name, lo, hi, den=1):
        v = self._var(name, lo, hi)
        self.eng.inputs[name] = ("g", v, den)
        return SNum._reduce(of_atom(v), den, True)

    def bool(self, name):
        v = self._var(name, 0, 1)
        self.eng.inputs[name] = ("b", v)
        return SNum(of_atom(v), 1, False) == 1

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        v = self._var(name, 0, len(options) - 1)
        self.eng.inputs[name] = ("i", v)
        return options[self.eng.concretize(of_atom(v))]

    # logic --------------------------------------------------------------
    def And(self, *a): return mkbool(cand([bcond(x) for x in a]))
    def Or(self, *a): return mkbool(cor([bcond(x) for x in a]))
    def Not(self, a): return mkbool(cnot(bcond(a)))
    def If(self, c, a, b): return ite(bcond(c), a, b)

    def assume(self, cond):
        """What was checked before must hold without the assumption, so it is decided first."""
        cond = bcond(cond)
        if cond.kind != "T" and self.pending and not self.eng.dead:
            if self.eng.pos >= len(self.eng.trace):
                self.early = decide(self.eng, [p for p in self.pending if p[1].kind != "T"], self.eng.get_model())
                if self.early:
                    self.eng.die(Stop("violated"))
            self.decided += len(self.pending)
            self.pending = []
        self.eng.require(cond)

    def check(self, label, cond, info=None):
        if self.eng.dead:
            raise self.eng.dead
        self.labels[label] = self.labels.get(label, 0) + 1
        self.pending.append((label, bcond(cond)))

    def observe(self, label, value, unordered=False):
        self.obs.append((label, value, unordered))

    def known(self, key, cond=True):
        """Ends the path when cond holds: the input region of a listed finding."""
        raise NotImplementedError

    def floor(self, x): return shims.MathStub.floor(x)
    def ceil(self, x): return shims.MathStub.ceil(x)
    def trunc(self, x): return shims.sv_int(x)

    def fork(self, cond):
        """Truth value of a condition, exploring both."""
        return bool(cond)

    def value(self, x):
        """Concrete value of a symbolic number or string (explores all)."""
        if isinstance(x, (SNum, SStr)):
            return x._value()
        if isinstance(x, SBool):
            return bool(x)
        return x

    def path(self, *parts): return os.path.join(env.ROOT, *parts)

    def writebytes(self, path, data):
        self.fs.files[self.fs.norm(path)] = list(data)

    def readbytes(self, path):
        return list(self.fs.files[self.fs.norm(path)])

    def mkdir(self, path):
        env.OsStub(self.fs).makedirs(path, exist_ok=True)

    def writejson(self, path, obj):
        self.fs.files[self.fs.norm(path)] = [env.JsonStub.dumps(obj)]

    def readjson(self, path):
        return env.JsonStub.load(self.fs.open(path))

    def printed(self, fn, *a, **k):
        """text fn prints"""
        out, sys.stdout = sys.stdout, shims.Sink()
        try:
            fn(*a, **k)
            return sys.stdout.text()
        finally:
            sys.stdout = out

    def seq(self, xs):
        """list of a bytes-like value"""
        return list(xs)

    def mod(self, name):
        return self.mods[name]


# -- state snapshot ---------------------------------------------------------------
class Snapshot(object):
    def __init__(self, modules):
        self.saved = []
        seen = set()
        todo = [m.__dict__ for m in modules]
        own = set(id(m.__dict__) for m in modules)
        names = set(m.__name__ for m in modules)
        import types
        while todo:
            o = todo.pop()
            if id(o) in seen:
                continue
            seen.add(id(o))
            if isinstance(o, dict):
                raw = list(dict.items(o))
                self.saved.append(("d", o, dict(raw), getattr(o, "_nsym", None)))
                for k, v in raw:
                    if k == "__builtins__":
                        continue
                    todo.append(v)
            elif isinstance(o, list):
                self.saved.append(("l", o, list(o)))
                todo.extend(o)
            elif isinstance(o, set):
                self.saved.append(("s", o, set(o)))
            elif isinstance(o, tuple):
                todo.extend(o)
            elif isinstance(o, types.FunctionType):
                if o.__module__ in names:
                    if o.__defaults__:
                        todo.extend(o.__defaults__)
                    if o.__kwdefaults__:
                        todo.append(o.__kwdefaults__)
                    todo.append(o.__dict__)
                    if o.__closure__:
                        for c in o.__closure__:
                            try:
                                todo.append(c.cell_contents)
                            except ValueError:
                                pass
            elif isinstance(o, (staticmethod, classmethod)):
                todo.append(o.__func__)
            elif isinstance(o, type):
                if o.__module__ in names:
                    raw = dict(o.__dict__)
                    self.saved.append(("c", o, raw))
                    todo.extend(raw.values())
            elif hasattr(o, "cache_clear"):
                self.saved.append(("lru", o))
            elif isinstance(o, types.ModuleType):
                pass
            elif type(o).__module__ in names and hasattr(o, "__dict__"):
                todo.append(o.__dict__)
            elif isinstance(o, shims.SymSet):
                todo.append(o._d)

    def restore(self):
        for s in self.saved:
            k, o = s[0], s[1]
            if k == "d":
                if len(o) != len(s[2]) or any(dict.get(o, a, self) is not b for a, b in s[2].items()):
                    dict.clear(o)
                    dict.update(o, s[2])
                    if s[3] is not None:
                        o._nsym = s[3]
            elif k == "l":
                o[:] = s[2]
            elif k == "s":
                o.clear()
                o.update(s[2])
            elif k == "c":
                for a in list(o.__dict__):
                    if a not in s[2] and a not in ("__dict__", "__weakref__"):
                        try:
                            delattr(o, a)
                        except Exception:
                            pass
                for a, b in s[2].items():
                    if o.__dict__.get(a) is not b and a not in ("__dict__", "__weakref__", "__doc__"):
                        try:
                            setattr(o, a, b)
                        except Exception:
                            pass
            else:
                o.cache_clear()


class World(object):
    """The transformed package in this process."""

    def __init__(self, root, extra_stubs=None):
        self.fs = env.MemFS()
        self.rnd = env.RandomModule(lambda: CTX)
        self.stubs = {
            "math": shims.MathStub(), "codecs": shims.CodecsStub(), "collections": shims.CollectionsStub(),
            "struct": shims.StructStub, "logging": shims.LoggingStub(),
            "json": env.JsonStub, "pickle": env.PickleStub, "cPickle": env.PickleStub,
            "random": self.rnd, "os": env.OsStub(self.fs), "glob": env.GlobStub(self.fs),
        }
        from . import npstub
        self.np = npstub.NP(lambda: CTX)
        self.stubs["numpy"] = self.np
        self.stubs["os.path"] = self.stubs["os"].path
        extra = {"open": lambda *a, **k: self.fs.open(*a, **k)}
        self.pkg = load.load("gsapi", root, self.stubs, extra)
        self.mods = {n[6:]: m for n, m in list(sys.modules.items())
                     if n.startswith("gsapi.") and m is not None}
        self.snap = Snapshot([m for n, m in sys.modules.items()
                              if n == "gsapi" or n.startswith("gsapi.")])

    def reset(self):
        self.snap.restore()
        self.fs.files.clear()
        self.fs.dirs.clear()
        self.fs.dirs.add(env.ROOT)
        self.rnd.restart()
        self.np.reset()
        env.PickleStub.table = []


WORLD = None


class PathTimeout(BaseException):
    pass


def _alarm(*a):
    raise PathTimeout()


def inputs_of(eng, model):
    out = {}
    for name, spec in eng.inputs.items():
        if spec is None:
            continue
        v = sym.eatom(spec[1], model)
        out[name] = [spec[0], v] + ([spec[2]] if spec[0] == "g" else [])
    return out


def refute(eng, conds):
    """Model of path and not(all conds), or None."""
    rest = [e for e in conds if eng.implied(e) is not True]
    return eng.sat_with(cnot(cand(rest))) if rest else None


def decide(eng, conds, model):
    """(label, inputs) of a violated condition on the current path, or None."""
    if not conds:
        return None
    vm = model if any(not econd(e, model) for l, e in conds) else refute(eng, [e for l, e in conds])
    if vm is None:
        return None
    lab = [l for l, e in conds if not econd(e, vm)]
    return (lab[0] if lab else "?"), inputs_of(eng, vm)


def explore(modname, case, idx, opts):
    """Explores every path of one case."""
    global CTX, WORLD
    t0 = time.time()
    res = {"case": idx, "params": case, "paths": 0, "stopped": 0, "queries": 0, "solver_s": 0.0,
           "branches": 0, "checks": 0, "labels": {}, "violations": [], "inconclusive": [],
           "samples": [], "inexact": 0, "nontrivial": 0}
    try:
        if WORLD is None:
            WORLD = World(opts["repo"])
        mod = importlib.import_module("checks." + modname)
    except Exception:
        res["inconclusive"].append({"why": "load: " + traceback.format_exc(limit=-4), "inputs": {},
                                    "replay": True})
        res["wall_s"] = time.time() - t0
        return res
    for q in load.FUNCS:
        load.FUNCS[q] = False
    eng = Engine(opts.get("solver_ms", 60000), opts.get("seed", 1))
    sym.ENG = eng
    rng = _random.Random("%s %s %s" % (opts.get("seed", 1), modname, idx))
    nsamp = opts.get("samples", 4)
    # processor time, so that a busy machine does not matter; the wall only as a last resort
    signal.signal(signal.SIGPROF, _alarm)
    signal.signal(signal.SIGALRM, _alarm)
    deadline = t0 + opts.get("job_s", 600)
    vio_labels = set()
    while True:
        eng.start_path()
        WORLD.reset()
        c = CTX = SymCtx(eng, WORLD.mods, WORLD.fs, WORLD.rnd)
        exc = None
        bad = None
        signal.setitimer(signal.ITIMER_PROF, opts.get("path_s", 60))
        signal.setitimer(signal.ITIMER_REAL, 8 * opts.get("path_s", 60))
        try:
            mod.run(c, case)
        except Stop:
            bad = "stop"
        except Unsupported as e:
            bad = ("unsupported", str(e))
        except PathTimeout:
            bad = ("timeout", "path exceeded %ss" % opts.get("path_s", 60))
        except RecursionError as e:
            exc = e
        except Exception as e:
            exc = e
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
        if exc is not None and eng.dead:
            # a bare except in the code swallowed an engine signal
            bad = "stop" if isinstance(eng.dead, Stop) else ("unsupported", str(eng.dead))
            exc = None
        elif eng.dead and bad is None:
            bad = "stop" if isinstance(eng.dead, Stop) else ("unsupported", str(eng.dead))
        eng.dead = None
        try:
            if c.early and c.early[0] not in vio_labels:
                vio_labels.add(c.early[0])
                res["violations"].append({"label": c.early[0], "inputs": c.early[1]})
            if bad == "stop":
                res["stopped"] += 1
            elif bad:
                inp = {}
                try:
                    inp = inputs_of(eng, eng.get_model())
                except BaseException:
                    eng.dead = None
                res["inconclusive"].append({"why": "%s: %s" % bad, "inputs": inp, "replay": True})
            else:
                model = eng.get_model()
                res["paths"] += 1
                for l, n in c.labels.items():
                    res["labels"][l] = res["labels"].get(l, 0) + n
                res["checks"] += c.decided + len(c.pending)
                conds = [(l, e) for l, e in c.pending if e.kind != "T"]
                if conds or eng.trace:
                    res["nontrivial"] += 1
                vio = decide(eng, conds, model)
                if vio is not None:
                    if vio[0] not in vio_labels:
                        vio_labels.add(vio[0])
                        res["violations"].append({"label": vio[0], "inputs": vio[1]})
                elif exc is None and len(res["samples"]) < nsamp or rng.random() < nsamp / (res["paths"] + 1.0):
                    s = {"inputs": inputs_of(eng, model),
                         "obs": [[l, (lambda r: sorted(r, key=repr) if u else r)(sym.evaluate(v, model))]
                                 for l, v, u in c.obs],
                         "exc": None if exc is None else type(exc).__name__}
                    if len(res["samples"]) < nsamp:
                        res["samples"].append(s)
                    else:
                        res["samples"][rng.randrange(nsamp)] = s
                if exc is not None:
                    key = "exception:%s" % type(exc).__name__
                    if key not in vio_labels:
                        vio_labels.add(key)
                        res["violations"].append({
                            "label": key, "inputs": inputs_of(eng, model),
                            "tb": "".join(traceback.format_exception(type(exc), exc, exc.__traceback__)[-6:])})
        except Unsupported as e:
            res["inconclusive"].append({"why": "unknown: %s" % e, "inputs": {}, "replay": False})
            eng.dead = None
        except Stop:
            eng.dead = None
            res["stopped"] += 1
        if len(res["violations"]) >= 3 or len(res["inconclusive"]) >= 3:
            break
        if time.time() > deadline:
            res["inconclusive"].append({"why": "job budget of %ss spent after %d paths" %
                                        (opts.get("job_s"), res["paths"]), "inputs": {}, "replay": False})
            break
        try:
            if not eng.next_path():
                break
        except Unsupported as e:
            res["inconclusive"].append({"why": str(e), "inputs": {}, "replay": False})
            break
    res["queries"], res["solver_s"], res["branches"] = eng.queries, eng.solver_s, eng.branches
    res["inexact"] = eng.inexact
    res["funcs"] = sorted(q for q, v in load.FUNCS.items() if v)
    res["wall_s"] = time.time() - t0
    return res
