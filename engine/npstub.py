"""numpy stand-in: the real numpy, with arrays of objects where numbers may become symbolic.
Shapes, indexing and element-wise loops are numpy's own; the elements' arithmetic is the executor's."""
import numpy
from .sym import SNum, SBool, issym
from .randstub import NPRandom

_FLOATS = (None, float, "float", "d", "float64", numpy.float64, numpy.double)


def _isfloat(dtype):
    if dtype is None or getattr(dtype, "_real", dtype) is float:
        return True
    try:
        return numpy.dtype(getattr(dtype, "_real", dtype)).kind == "f"
    except TypeError:
        return False


def _has(x):
    if isinstance(x, (list, tuple)):
        return any(_has(y) for y in x)
    if isinstance(x, numpy.ndarray):
        return x.dtype == object and any(issym(y) for y in x.flat)
    return issym(x)


class NP(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.random = NPRandom(ctx)

    def reset(self):
        self.random = NPRandom(self.ctx)

    def __getattr__(self, n):
        return getattr(numpy, n)

    def _full(self, shape, v, dtype):
        if _isfloat(dtype):
            out = numpy.empty(shape, dtype=object)
            out.fill(numpy.float64(v) if not issym(v) else v)
            return out
        return numpy.full(shape, v, dtype=getattr(dtype, "_real", dtype))

    def zeros(self, shape, dtype=None, **k): return self._full(shape, 0, dtype)
    def ones(self, shape, dtype=None, **k): return self._full(shape, 1, dtype)
    def empty(self, shape, dtype=None, **k): return self._full(shape, 0, dtype)

    def full(self, shape, v, dtype=None, **k):
        if dtype is None and not isinstance(v, float) and not (isinstance(v, SNum) and v.isf):
            return numpy.full(shape, v, dtype=object) if issym(v) else numpy.full(shape, v)
        return self._full(shape, v, dtype)

    def zeros_like(self, a, **k): return self.zeros(numpy.shape(a))
    def ones_like(self, a, **k): return self.ones(numpy.shape(a))

    def _arr(self, f, x, dtype=None, **k):
        if _has(x) or (isinstance(x, numpy.ndarray) and x.dtype == object):
            return f(x, dtype=object, **k)
        return f(x, dtype=getattr(dtype, "_real", dtype), **k)

    def array(self, x, dtype=None, **k): return self._arr(numpy.array, x, dtype, **k)
    def asarray(self, x, dtype=None, **k): return self._arr(numpy.asarray, x, dtype)

    def ceil(self, x): return self._each(numpy.ceil, "__ceil__", x)
    def floor(self, x): return self._each(numpy.floor, "__floor__", x)
    def round(self, x, decimals=0): return self._each(numpy.round, "__round__", x)
    rint = round

    def _each(self, f, m, x):
        if isinstance(x, SNum):
            r = getattr(x, m)()
            return SNum(r.n, r.d, True) if isinstance(r, SNum) else float(r)
        if isinstance(x, numpy.ndarray) and x.dtype == object:
            return numpy.array([self._each(f, m, y) for y in x.flat], dtype=object).reshape(x.shape)
        return f(x)
