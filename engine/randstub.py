"""random stand-in used in both modes; draws are inputs of the run."""


# -- random -------------------------------------------------------------------------
class RandomStub(object):
    """Draws are inputs of the run: named by seed stream and index."""
    DEN = 1 << 12

    def __init__(self, ctx, seed=None):
        self.ctx = ctx
        self.restart(seed)

    def restart(self, seed=None):
        self.stream, self.i, self.n = repr(seed), 0, 0

    def seed(self, s=None, *a, **k):
        if s is None:   # seeded anew from outside: draws that no other seed gives
            self.n += 1
            s = "None#%d" % self.n
        self.stream, self.i = repr(s), 0

    def _nm(self):
        self.i += 1
        return "rnd[%s].%d" % (self.stream, self.i)

    def random(self):
        src = self.ctx().override
        if src is not None:
            return src.random(self)
        return self.fresh()

    def fresh(self):
        return self.ctx().grid(self._nm(), 0, self.DEN - 1, self.DEN)

    def random_sample(self): return self.random()

    def _below(self, n):
        if n <= 0:
            raise ValueError("empty range for randrange()")
        src = self.ctx().override
        if src is not None:
            return src.below(self, int(n))
        return self.fresh_below(int(n))

    def fresh_below(self, n):
        return self.ctx().int(self._nm(), 0, n - 1)

    def randint(self, a, b): return a + self._below(b - a + 1)

    def randrange(self, a, b=None, step=1):
        if b is None:
            a, b = 0, a
        n = (b - a + step - 1) // step
        return a + self._below(n) * step

    def uniform(self, a, b): return a + (b - a) * self.random()

    def choice(self, seq):
        if not len(seq):
            raise IndexError("Cannot choose from an empty sequence")
        return seq[int(self._below(len(seq)))]

    def shuffle(self, l, *a):
        for i in range(len(l) - 1, 0, -1):
            j = int(self._below(i + 1))
            l[i], l[j] = l[j], l[i]

    def sample(self, pop, k):
        pop = list(pop)
        if k > len(pop) or k < 0:
            raise ValueError("Sample larger than population or is negative")
        out = []
        for _ in range(k):
            out.append(pop.pop(int(self._below(len(pop)))))
        return out

    def choices(self, population, weights=None, cum_weights=None, k=1):
        out = []
        for _ in range(k):
            if weights is None and cum_weights is None:
                out.append(self.choice(population))
                continue
            cum, t = [], 0
            if cum_weights is not None:
                cum = list(cum_weights)
            else:
                for w in weights:
                    t = t + w
                    cum.append(t)
            r = self.random() * cum[-1]
            for x, cw in zip(population, cum):
                if r < cw:
                    out.append(x)
                    break
            else:
                out.append(population[-1])
        return out

    def getstate(self): return (self.stream, self.i)
    def setstate(self, s): self.stream, self.i = s


class RandomModule(RandomStub):
    def Random(self, seed=None): return RandomStub(self.ctx, seed)
    SystemRandom = Random


class NPRandom(object):
    """numpy.random functions, drawn from the same source."""
    NAMES = ("seed", "random", "rand", "random_sample", "randint", "choice", "shuffle", "permutation")

    def __init__(self, ctx):
        self.r = RandomStub(ctx, "np")

    def seed(self, s=None): self.r.seed(s if s is None else ("np", s))

    def random(self, size=None):
        if size is not None:
            return self._many(size, self.r.random)
        return self.r.random()
    random_sample = random

    def rand(self, *dims):
        return self.random(dims if dims else None)

    def _many(self, size, f):
        import numpy as np
        if isinstance(size, int):
            size = (size,)
        out = np.empty(size, dtype=object)
        for i in np.ndindex(*size):
            out[i] = f()
        return out

    def randint(self, low, high=None, size=None, dtype=None):
        if high is None:
            low, high = 0, low
        f = lambda: low + self.r._below(high - low)
        return f() if size is None else self._many(size, f)

    def choice(self, a, size=None, replace=True, p=None):
        """Any element that has a positive probability.  (Integers are drawn from in their order: the code
        under test may list them in the order of a set.)"""
        if hasattr(a, "tolist"):
            a = a.tolist()
        if isinstance(a, int) and a > 0:
            a = list(range(a))
        if not isinstance(a, (list, tuple)):
            raise ValueError("a must be 1-dimensional or an integer")
        if not len(a):
            raise ValueError("a cannot be empty")
        idx = list(range(len(a)))
        if p is not None:
            p = list(p)
            if len(p) != len(a):
                raise ValueError("a and p must have same size")
            t = 0
            for x in p:
                if x < 0:
                    raise ValueError("probabilities are not non-negative")
                t = t + x
            if t - 1 > 1e-8 or 1 - t > 1e-8:
                raise ValueError("probabilities do not sum to 1")
            idx = [i for i in idx if p[i] > 0]
        if all(isinstance(x, int) for x in a):
            idx.sort(key=lambda i: a[i])

        def f():
            return a[idx[int(self.r._below(len(idx)))]]
        return f() if size is None else self._many(size, f)

    def shuffle(self, l): self.r.shuffle(l)

    def permutation(self, n):
        l = list(range(n)) if isinstance(n, int) else list(n)
        self.r.shuffle(l)
        return l
