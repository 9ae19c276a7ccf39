"""Concrete side: runs a harness on the untransformed /repo code with given
inputs.  No z3 here.  Usage: replay.py FILE.json
FILE: {"module":..., "repo":..., "runs":[{"case":..., "inputs":..., "obs":...}]}
Prints one JSON line per run."""
import contextlib
import io
import json
import logging
import math
import os
import shutil
import signal
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True
from engine import api  # noqa: E402


class AssumeFailed(BaseException):
    pass


class ConcCtx(api.Ctx):
    symbolic = False

    def __init__(self, inputs, tmp):
        self.inputs, self.tmp = inputs, tmp
        self.failed, self.obs = [], []
        self.checks = 0

    def _raw(self, name, lo, hi):
        if hi < lo:
            raise AssumeFailed("empty range")
        v = self.inputs.get(name)
        v = v[1] if v is not None else lo
        if not lo <= v <= hi:
            v = min(max(v, lo), hi)
        return v

    def int(self, name, lo, hi):
        return lo if lo == hi else self._raw(name, lo, hi)

    def grid(self, name, lo, hi, den=1): return self._raw(name, lo, hi) / den
    def bool(self, name): return self._raw(name, 0, 1) == 1

    def choice(self, name, options):
        options = list(options)
        return options[0] if len(options) == 1 else options[self._raw(name, 0, len(options) - 1)]

    def And(self, *a): return all(bool(x) for x in a)
    def Or(self, *a): return any(bool(x) for x in a)
    def Not(self, a): return not a
    def If(self, c, a, b): return a if c else b

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def check(self, label, cond, info=None):
        self.checks += 1
        if not cond:
            self.failed.append(label)

    def observe(self, label, value, unordered=False):
        v = plain(value)
        self.obs.append((label, sorted(v, key=repr) if unordered else v))
    def floor(self, x): return math.floor(x)
    def ceil(self, x): return math.ceil(x)
    def trunc(self, x): return int(x)
    def fork(self, cond): return bool(cond)
    def value(self, x): return x
    def path(self, *parts): return os.path.join(self.tmp, *parts)
    def printed(self, fn, *a, **k):
        with contextlib.redirect_stdout(io.StringIO()) as f:
            fn(*a, **k)
        return f.getvalue()

    def seq(self, xs): return list(bytearray(xs))

    def writebytes(self, path, data):
        with open(path, "wb") as f:
            f.write(bytes(bytearray(int(x) for x in data)))

    def readbytes(self, path):
        with open(path, "rb") as f:
            return list(bytearray(f.read()))

    def mkdir(self, path):
        if not os.path.isdir(path):
            os.makedirs(path)

    def writejson(self, path, obj):
        with open(path, "w") as f:
            json.dump(obj, f)

    def readjson(self, path):
        with open(path) as f:
            return json.load(f)

    def mod(self, name):
        import importlib
        return importlib.import_module("gsapi." + name)


def plain(x):
    if isinstance(x, (bytes, bytearray)):
        return list(x)
    if isinstance(x, (tuple, list)):
        return [plain(y) for y in x]
    if isinstance(x, (set, frozenset)):
        return sorted((plain(y) for y in x), key=repr)
    if isinstance(x, dict):
        return sorted(([plain(k), plain(v)] for k, v in x.items()), key=repr)
    if hasattr(x, "tolist"):
        return plain(x.tolist())
    return x


def same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))
    return a == b


def one(mod, run, timeout):
    """Runs in a child process; returns an outcome dict."""
    tmp = tempfile.mkdtemp(prefix="svreplay")
    cwd = os.getcwd()
    os.chdir(tmp)
    out = {"status": "ok"}
    c = ConcCtx(run.get("inputs", {}), tmp)

    def alarm(*a):
        raise TimeoutError("concrete run exceeded %ss" % timeout)
    try:
        CTX[0] = c
        signal.signal(signal.SIGPROF, alarm)
        signal.signal(signal.SIGALRM, alarm)
        # processor time: a busy machine must not look like an endless loop
        signal.setitimer(signal.ITIMER_PROF, timeout)
        signal.alarm(8 * timeout)
        mod.run(c, run["case"])
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)
    except AssumeFailed:
        out["status"] = "assume"
    except TimeoutError as e:
        out = {"status": "fail", "why": "does not terminate: %s" % e}
    except Exception as e:
        out = {"status": "exc", "why": "%s: %s" % (type(e).__name__, e), "exc": type(e).__name__,
               "tb": traceback.format_exc(limit=-5)}
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
    out["checks"] = c.checks
    if c.failed:
        out["status"] = "fail"
        out["why"] = "failed: " + ", ".join(sorted(set(c.failed)))
        out["failed"] = c.failed
    if "obs" in run and out["status"] == "ok":
        want = run["obs"]
        got = json.loads(json.dumps([[l, v] for l, v in c.obs], default=str))
        want = json.loads(json.dumps(want, default=str))
        if not same(want, got):
            out["status"] = "mismatch"
            out["why"] = "observed %s, encoding says %s" % (got, want)
    return out


CTX = [None]    # the context of the run; none while gsapi is imported


class Importing(object):
    override = None
    def grid(self, name, lo, hi, den=1): return lo / den
    def int(self, name, lo, hi): return lo


def patch_random(ctx):
    import random
    from engine.randstub import RandomModule
    r = RandomModule(ctx)
    for n in ("seed", "random", "randint", "randrange", "uniform", "choice", "shuffle", "sample",
              "choices", "getstate", "setstate", "Random"):
        setattr(random, n, getattr(r, n))
    try:
        import numpy
        from engine.randstub import NPRandom
        nr = NPRandom(ctx)
        for n in nr.NAMES:
            setattr(numpy.random, n, getattr(nr, n))
    except ImportError:
        pass


def main():
    with open(sys.argv[1]) as f:
        job = json.load(f)
    repo = job.get("repo", "/repo")
    sys.path.insert(0, repo)
    logging.disable(logging.CRITICAL)
    devnull = open(os.devnull, "w")
    real = sys.stdout
    import importlib
    sys.stdout = devnull
    err = None
    try:
        try:
            import numpy  # noqa: F401
        except ImportError:
            pass
        patch_random(lambda: CTX[0] or Importing())
        import gsapi  # noqa: F401
    except Exception as e:
        err = "%s: %s" % (type(e).__name__, e)
    mod = importlib.import_module("checks." + job["module"])
    sys.stdout = real
    for run in job["runs"]:
        if err:
            print(json.dumps({"status": "exc", "exc": "ImportError", "why": "import gsapi: " + err}))
            continue
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            sys.stdout = devnull
            try:
                out = one(mod, run, job.get("timeout", 20))
            except BaseException as e:
                out = {"status": "error", "why": repr(e)}
            os.write(w, json.dumps(out, default=str).encode()[:60000])
            os._exit(0)
        os.close(w)
        data = b""
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            data += b
        os.close(r)
        os.waitpid(pid, 0)
        print(data.decode() if data else json.dumps({"status": "error", "why": "child died"}))
        sys.stdout.flush()


if __name__ == "__main__":
    main()
