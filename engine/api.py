"""What a harness sees.  SymCtx explores, ConcCtx replays one input."""
import contextlib
import functools


class CheckFailed(Exception):
    pass


class Draws(object):
    """A random source whose every draw is the number u in [0,1)."""
    def __init__(self, c, u):
        self.c, self.u = c, u

    def random(self, stub): return self.u
    def below(self, stub, n): return self.c.value(self.c.floor(self.u * n))


class Limited(object):
    """The run's own source; assumes that at most so many indices are drawn."""
    def __init__(self, c, limit):
        self.c, self.limit, self.n = c, limit, 0

    def random(self, stub): return stub.fresh()

    def below(self, stub, n):
        self.n += 1
        self.c.assume(self.n <= self.limit)
        return stub.fresh_below(n)


class Ctx(object):
    symbolic = False
    override = None     # source of random draws

    @contextlib.contextmanager
    def drawing(self, source):
        """Within, all of random and numpy.random draw from source."""
        saved, self.override = self.override, source
        try:
            yield source
        finally:
            self.override = saved

    def same_draws(self, u): return self.drawing(Draws(self, u))
    def few_draws(self, limit): return self.drawing(Limited(self, limit))

    def And(self, *a):
        raise NotImplementedError

    # shared helpers -------------------------------------------------------
    def Implies(self, a, b): return self.Or(self.Not(a), b)
    def Iff(self, a, b): return self.Or(self.And(a, b), self.And(self.Not(a), self.Not(b)))

    def Count(self, conds):
        r = 0
        for x in conds:
            r = r + self.If(x, 1, 0)
        return r

    def AllEq(self, xs, ys):
        xs, ys = list(xs), list(ys)
        if len(xs) != len(ys):
            return False
        return self.And(*[self.eq(a, b) for a, b in zip(xs, ys)])

    def eq(self, a, b):
        """Deep, non-forking equality of plain data."""
        if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
            if type(a) is not type(b):
                return False
            return self.AllEq(a, b)
        if isinstance(a, dict) and isinstance(b, dict):
            if len(a) != len(b):
                return False
            return self.And(*[(k in b) and self.eq(a[k], b[k]) for k in a])
        return a == b

    def multiset_eq(self, xs, ys):
        """Lists of plain data (tuples) equal as multisets, without forking."""
        xs, ys = list(xs), list(ys)
        if len(xs) != len(ys):
            return False
        return self.And(*[self.Count([self.eq(x, z) for z in xs]) ==
                          self.Count([self.eq(x, z) for z in ys]) for x in xs])

    def Max(self, xs):
        xs = list(xs)
        plain = [x for x in xs if type(x) in (int, float)]
        if plain:   # keeps the formula small
            xs = [max(plain)] + [x for x in xs if type(x) not in (int, float)]
        r = xs[0]
        for x in xs[1:]:
            r = self.If(x > r, x, r)
        return r

    def Min(self, xs):
        xs = list(xs)
        plain = [x for x in xs if type(x) in (int, float)]
        if plain:   # keeps the formula small
            xs = [min(plain)] + [x for x in xs if type(x) not in (int, float)]
        r = xs[0]
        for x in xs[1:]:
            r = self.If(x < r, x, r)
        return r

    def Sum(self, xs):
        r = 0
        for x in xs:
            r = r + x
        return r

    def raises(self, fn, *a, **k):
        """Exception raised by fn, or None."""
        try:
            fn(*a, **k)
        except Exception as e:
            return e
        return None
