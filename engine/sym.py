"""Path-exploring symbolic executor: terms, solver interface and proxies for
numbers, booleans and lazily formatted strings.

Numbers are exact rationals n/d: n a linear integer term over atoms (inputs,
floor divisions, conditionals, products), d a positive constant (or a positive
term when a symbolic divisor was met).  Harness inputs live on dyadic grids, so
additions, multiplications and divisions by powers of two coincide with IEEE
doubles; any other float division is counted in Engine.inexact and reported."""
import math
import time
from fractions import Fraction
import z3

ENG = None  # the engine of the running job
INF = float("inf")


class Stop(BaseException):
    """Ends the current path (not an error)."""


class Unsupported(BaseException):
    """The path cannot be decided symbolically (inconclusive)."""


# ---------------------------------------------------------------------------
# terms (hash-consed)
_TAB = {}


class Atom(object):
    """Integer atom: var(name) | div(lin, d) | ite(cond, lin, lin) |
    mul(atoms) | ndiv(lin, lin)."""
    __slots__ = ("kind", "a", "id", "z", "lo", "hi")


def _atom(kind, *a):
    key = (kind,) + tuple(x.id if isinstance(x, (Atom, Lin, Cond)) else x for x in a)
    t = _TAB.get(key)
    if t is None:
        t = Atom()
        t.kind, t.a, t.id, t.z = kind, a, len(_TAB), None
        t.lo, t.hi = _interval(kind, a)
        _TAB[key] = t
    return t


def _interval(kind, a):
    if kind == "var":
        return a[1], a[2]
    if kind == "div":
        lo, hi = a[0].bounds()
        return (lo // a[1] if lo != -INF else lo), (hi // a[1] if hi != INF else hi)
    if kind == "ite":
        l1, h1 = a[1].bounds()
        l2, h2 = a[2].bounds()
        return min(l1, l2), max(h1, h2)
    if kind == "mul":
        lo, hi = 1, 1
        for x in a:
            c = []
            for p in (lo, hi):
                for q in (x.lo, x.hi):
                    if (p in (INF, -INF) and q == 0) or (q in (INF, -INF) and p == 0):
                        c.append(0)
                    else:
                        c.append(p * q)
            lo, hi = min(c), max(c)
        return lo, hi
    return -INF, INF


class Lin(object):
    __slots__ = ("c", "t", "id", "z", "b")

    def bounds(self):
        if self.b is None:
            lo = hi = self.c
            for a, k in self.t:
                if k > 0:
                    lo, hi = lo + k * a.lo, hi + k * a.hi
                else:
                    lo, hi = lo + k * a.hi, hi + k * a.lo
            self.b = (lo, hi)
        return self.b


def _lin(c, terms):
    """terms: tuple of (atom, coeff) sorted by atom id, no zero coeffs."""
    key = (c, tuple((a.id, k) for a, k in terms))
    l = _TAB.get(key)
    if l is None:
        l = Lin()
        l.c, l.t, l.id, l.z, l.b = c, terms, len(_TAB), None, None
        _TAB[key] = l
    return l


def const(v):
    return _lin(v, ())


def of_atom(a):
    if a.lo == a.hi:
        return const(a.lo)
    return _lin(0, ((a, 1),))


def ladd(x, y, ky=1):
    """x + ky*y"""
    if not y.t:
        return _lin(x.c + ky * y.c, x.t) if y.c else x
    d = {}
    for a, k in x.t:
        d[a.id] = (a, k)
    for a, k in y.t:
        o = d.get(a.id)
        if o is None:
            d[a.id] = (a, ky * k)
        else:
            k2 = o[1] + ky * k
            if k2:
                d[a.id] = (a, k2)
            else:
                del d[a.id]
    return _lin(x.c + ky * y.c, tuple(d[i] for i in sorted(d)))


def lscale(x, k):
    if k == 1:
        return x
    if k == 0:
        return const(0)
    return _lin(x.c * k, tuple((a, q * k) for a, q in x.t))


def lmul(x, y):
    if not y.t:
        return lscale(x, y.c)
    if not x.t:
        return lscale(y, x.c)
    r = const(x.c * y.c)
    if x.c:
        r = ladd(r, _lin(0, y.t), x.c)
    if y.c:
        r = ladd(r, _lin(0, x.t), y.c)
    for a, p in x.t:
        for b, q in y.t:
            fa = list(a.a) if a.kind == "mul" else [a]
            fb = list(b.a) if b.kind == "mul" else [b]
            m = _atom("mul", *sorted(fa + fb, key=lambda t: t.id))
            r = ladd(r, _lin(0, ((m, 1),)), p * q)
    return r


def ldiv(x, d):
    """floor(x / d), d a positive int."""
    if d == 1:
        return x
    # split off the part divisible by d
    q = x.c // d
    rem_c = x.c - q * d
    out, rest = [], []
    for a, k in x.t:
        m = k // d
        if m * d == k:
            out.append((a, m))
        else:
            rest.append((a, k))
    r = _lin(q, tuple(out))
    if not rest:
        return r
    g = d
    for a, k in rest:
        g = math.gcd(g, k)
    rc = rem_c // g
    rest = _lin(rc, tuple((a, k // g) for a, k in rest))
    d2 = d // g
    if d2 == 1:
        return ladd(r, rest)
    # floor(floor(y/p)/q) == floor(y/(p*q))
    if len(rest.t) == 1 and rest.t[0][1] == 1 and rest.t[0][0].kind == "div":
        a = rest.t[0][0]
        return ladd(r, ldiv(ladd(a.a[0], const(rest.c * a.a[1])), a.a[1] * d2))
    lo, hi = rest.bounds()
    if lo != -INF and hi != INF and lo // d2 == hi // d2:
        return ladd(r, const(lo // d2))
    return ladd(r, of_atom(_atom("div", rest, d2)))


class Cond(object):
    """le(lin): lin <= 0 | eq(lin) | ne(lin) | and(conds) | or(conds) | T | F"""
    __slots__ = ("kind", "a", "id", "z", "neg", "part", "k")


def _cond(kind, *a):
    key = (kind, "c") + tuple(x.id for x in a)
    t = _TAB.get(key)
    if t is None:
        t = Cond()
        t.kind, t.a, t.id, t.z, t.neg = kind, a, len(_TAB), None, None
        t.part = t.k = None
        _TAB[key] = t
        if kind in ("le", "eq", "ne"):
            l = a[0]
            s = 1 if l.t[0][1] > 0 else -1
            t.part = (_lin(0, l.t if s > 0 else tuple((x, -k) for x, k in l.t)), s)
            t.k = l.c
    return t


TRUE = _cond("T")
FALSE = _cond("F")


def le0(l):
    """l <= 0"""
    if not l.t:
        return TRUE if l.c <= 0 else FALSE
    lo, hi = l.bounds()
    if hi <= 0:
        return TRUE
    if lo > 0:
        return FALSE
    g = 0
    for a, k in l.t:
        g = math.gcd(g, k)
    if g > 1:
        l = _lin(-((-l.c) // g), tuple((a, k // g) for a, k in l.t))
    return _cond("le", l)


def eq0(l):
    if not l.t:
        return TRUE if l.c == 0 else FALSE
    lo, hi = l.bounds()
    if lo > 0 or hi < 0:
        return FALSE
    g = 0
    for a, k in l.t:
        g = math.gcd(g, k)
    if l.c % g:
        return FALSE
    s = g if l.t[0][1] > 0 else -g
    if s != 1:
        l = _lin(l.c // s, tuple((a, k // s) for a, k in l.t))
    return _cond("eq", l)


def cnot(c):
    if c.neg is None:
        if c.kind == "T":
            r = FALSE
        elif c.kind == "F":
            r = TRUE
        elif c.kind == "le":
            l = c.a[0]
            r = le0(ladd(const(1), l, -1))
        elif c.kind == "eq":
            r = _cond("ne", c.a[0])
        elif c.kind == "ne":
            r = _cond("eq", c.a[0])
        elif c.kind == "and":
            r = cor([cnot(x) for x in c.a])
        else:
            r = cand([cnot(x) for x in c.a])
        c.neg = r
        if r.neg is None:
            r.neg = c
    return c.neg


def cand(cs):
    out = {}
    for c in cs:
        if c.kind == "F":
            return FALSE
        if c.kind == "T":
            continue
        if c.kind == "and":
            for x in c.a:
                out[x.id] = x
        else:
            out[c.id] = c
    if not out:
        return TRUE
    l = [out[i] for i in sorted(out)]
    if len(l) == 1:
        return l[0]
    for x in l:
        if x.neg is not None and x.neg.id in out:
            return FALSE
    return _cond("and", *l)


def cor(cs):
    out = {}
    for c in cs:
        if c.kind == "T":
            return TRUE
        if c.kind == "F":
            continue
        if c.kind == "or":
            for x in c.a:
                out[x.id] = x
        else:
            out[c.id] = c
    if not out:
        return FALSE
    l = [out[i] for i in sorted(out)]
    if len(l) == 1:
        return l[0]
    for x in l:
        if x.neg is not None and x.neg.id in out:
            return TRUE
    return _cond("or", *l)


def lite(c, x, y):
    if c.kind == "T" or x is y:
        return x
    if c.kind == "F":
        return y
    # common part is factored out
    d = ladd(x, y, -1)
    if not d.t and d.c == 0:
        return x
    return ladd(y, of_atom(_atom("ite", c, d, const(0))))


def cite(c, x, y):
    return cor([cand([c, x]), cand([cnot(c), y])])


# -- z3 ------------------------------------------------------------------------
def zlin(l):
    if l.z is None:
        s = [zatom(a) if k == 1 else zatom(a) * k for a, k in l.t]
        if l.c or not s:
            s.append(z3.IntVal(l.c))
        l.z = z3.Sum(s) if len(s) > 1 else s[0]
    return l.z


def zatom(a):
    if a.z is None:
        k = a.kind
        if k == "var":
            a.z = z3.Int(a.a[0])
        elif k == "div":
            a.z = zlin(a.a[0]) / a.a[1]
        elif k == "ite":
            a.z = z3.If(zcond(a.a[0]), zlin(a.a[1]), zlin(a.a[2]))
        elif k == "mul":
            a.z = z3.Product([zatom(x) for x in a.a])
        elif k == "ndiv":
            a.z = zlin(a.a[0]) / zlin(a.a[1])
    return a.z


def zcond(c):
    if c.z is None:
        k = c.kind
        if k == "le":
            l = c.a[0]
            c.z = zlin(_lin(0, l.t)) <= -l.c
        elif k == "eq":
            l = c.a[0]
            c.z = zlin(_lin(0, l.t)) == -l.c
        elif k == "ne":
            l = c.a[0]
            c.z = zlin(_lin(0, l.t)) != -l.c
        elif k == "and":
            c.z = z3.And([zcond(x) for x in c.a])
        elif k == "or":
            c.z = z3.Or([zcond(x) for x in c.a])
        else:
            c.z = z3.BoolVal(k == "T")
    return c.z


# -- evaluation under an assignment ------------------------------------------------
def elin(l, m):
    r = l.c
    for a, k in l.t:
        r += k * eatom(a, m)
    return r


def eatom(a, m):
    k = a.kind
    if k == "var":
        v = m.get(a.a[0])
        return a.lo if v is None else v
    if k == "div":
        return elin(a.a[0], m) // a.a[1]
    if k == "ite":
        return elin(a.a[1] if econd(a.a[0], m) else a.a[2], m)
    if k == "mul":
        r = 1
        for x in a.a:
            r *= eatom(x, m)
        return r
    y = elin(a.a[1], m)
    return elin(a.a[0], m) // y if y > 0 else 0


def econd(c, m):
    k = c.kind
    if k == "le":
        return elin(c.a[0], m) <= 0
    if k == "eq":
        return elin(c.a[0], m) == 0
    if k == "ne":
        return elin(c.a[0], m) != 0
    if k == "and":
        return all(econd(x, m) for x in c.a)
    if k == "or":
        return any(econd(x, m) for x in c.a)
    return k == "T"


# ---------------------------------------------------------------------------
class Node(object):
    __slots__ = ("cond", "taken", "level", "alt", "val", "kind")

    def __init__(self, kind, cond, taken, level, alt, val=None):
        self.kind, self.cond, self.taken = kind, cond, taken
        self.level, self.alt, self.val = level, alt, val


class Engine(object):
    MAX_DEPTH = 6000

    def __init__(self, timeout_ms=60000, seed=0):
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.solver.set("random_seed", seed)
        self.trace = []
        self.pos = 0
        self.level = 0
        self.model = None       # assignment of the inputs satisfying the path
        self.known = {}
        self.bnd = {}
        self.abnd = {}          # atom id -> interval on this path
        self.fixed = {}         # atom id -> value on this path
        self.conc = {}
        self.queries = 0
        self.solver_s = 0.0
        self.branches = 0
        self.inexact = 0
        self.dead = None
        self.inputs = {}

    # -- solver ---------------------------------------------------------
    def _check(self):
        self.queries += 1
        t = time.time()
        r = self.solver.check()
        self.solver_s += time.time() - t
        if r == z3.unknown:
            self.die(Unsupported("solver answered unknown: %s" %
                                 self.solver.reason_unknown()))
        return r == z3.sat

    def _model(self):
        m = self.solver.model()
        out = {}
        for d in m.decls():
            v = m[d]
            if d.arity() == 0 and z3.is_int_value(v):
                out[d.name()] = v.as_long()
        return out

    def die(self, exc):
        self.dead = exc
        raise exc

    def _push(self, cond):
        self.solver.push()
        self.solver.add(zcond(cond))
        self.level += 1

    def get_model(self):
        if self.model is None:
            if not self._check():
                self.die(Stop("infeasible"))
            self.model = self._model()
        return self.model

    def sat_with(self, cond):
        """Model of path and cond, or None (does not alter the path)."""
        if cond.kind == "F":
            return None
        self.solver.push()
        try:
            self.solver.add(zcond(cond))
            if self._check():
                return self._model()
            return None
        finally:
            self.solver.pop()

    # -- path -----------------------------------------------------------
    def start_path(self):
        self.pos = 0
        self.known = {}
        self.bnd = {}
        self.abnd = {}
        self.fixed = {}
        self.conc = {}
        self.dead = None
        self.inputs = {}

    def next_path(self):
        """Backtracks to the deepest open alternative; False when none."""
        while self.trace:
            n = self.trace[-1]
            if n.alt is not None:
                while self.level > n.level:
                    self.solver.pop()
                    self.level -= 1
                self.model = n.alt
                n.alt = None
                n.taken = not n.taken
                self._push(n.cond if n.taken else cnot(n.cond))
                return True
            self.trace.pop()
        return False

    def learn(self, c):
        """Records that c holds on this path."""
        self.known[c.id] = True
        k = c.kind
        if k == "le":
            p, s = c.part
            b = self.bnd.get(p.id)
            if b is None:
                b = self.bnd[p.id] = [-INF, INF]
            if s > 0:
                if -c.k < b[1]:
                    b[1] = -c.k
            elif c.k > b[0]:
                b[0] = c.k
            if len(p.t) == 1:
                self._narrow(p, b)
        elif k == "eq":
            p, s = c.part
            v = -c.k * s
            self.bnd[p.id] = [v, v]
            if len(p.t) == 1:
                self._narrow(p, (v, v))
        elif k == "and":
            for x in c.a:
                self.learn(x)

    def _narrow(self, p, b):
        """Bounds b of a one-atom term p, passed on to the atom and into it."""
        a, k = p.t[0]
        if k != 1:
            return
        lo, hi = self.abnd.get(a.id) or (a.lo, a.hi)
        lo, hi = max(lo, b[0]), min(hi, b[1])
        self.abnd[a.id] = (lo, hi)
        if lo == hi:
            self.fixed[a.id] = lo
        if a.kind == "div":
            l, d = a.a
            if len(l.t) == 1 and l.t[0][1] == 1:
                q = _lin(0, l.t)
                i = self.bnd.get(q.id)
                if i is None:
                    i = self.bnd[q.id] = [-INF, INF]
                i[0] = max(i[0], lo * d - l.c)
                i[1] = min(i[1], hi * d + d - 1 - l.c)
                self._narrow(q, i)

    def pbounds(self, l):
        """Interval of a term on this path."""
        lo = hi = l.c
        for a, k in l.t:
            p, q = self.abnd.get(a.id) or (a.lo, a.hi)
            if a.kind == "div":
                x, y = self.pbounds(a.a[0])
                d = a.a[1]
                if x != -INF:
                    p = max(p, x // d)
                if y != INF:
                    q = min(q, y // d)
            if k > 0:
                lo, hi = lo + k * p, hi + k * q
            else:
                lo, hi = lo + k * q, hi + k * p
        return lo, hi

    def simp(self, l):
        """The term with atoms that are constant on this path replaced."""
        if not self.abnd:
            return l
        out, c = None, l.c
        for i, (a, k) in enumerate(l.t):
            v = self.fixed.get(a.id)
            if v is None and a.kind == "div":
                x, y = self.pbounds(a.a[0])
                d = a.a[1]
                if x != -INF and y != INF and x // d == y // d:
                    v = x // d
            if v is not None:
                if out is None:
                    out = list(l.t[:i])
                c += k * v
            elif out is not None:
                out.append((a, k))
        return l if out is None else _lin(c, tuple(out))

    def implied(self, c):
        """True/False when the facts on the path settle c syntactically."""
        if c.id in self.known:
            return True
        if c.neg is not None and c.neg.id in self.known:
            return False
        k = c.kind
        if k == "le":
            p, s = c.part
            b = self.bnd.get(p.id)
            if b is not None:
                if s > 0:
                    if b[1] <= -c.k:
                        return True
                    if b[0] > -c.k:
                        return False
                else:
                    if b[0] >= c.k:
                        return True
                    if b[1] < c.k:
                        return False
            if self.abnd:
                lo, hi = self.pbounds(c.a[0])
                if hi <= 0:
                    return True
                if lo > 0:
                    return False
        elif k in ("eq", "ne"):
            p, s = c.part
            b = self.bnd.get(p.id)
            if b is not None:
                v = -c.k * s
                if v < b[0] or v > b[1]:
                    return k == "ne"
                if b[0] == b[1] == v:
                    return k == "eq"
            if self.abnd:
                lo, hi = self.pbounds(c.a[0])
                if lo > 0 or hi < 0:
                    return k == "ne"
                if lo == hi == 0:
                    return k == "eq"
        elif k == "and":
            r = True
            for x in c.a:
                i = self.implied(x)
                if i is False:
                    return False
                if i is None:
                    r = None
            return r
        elif k == "or":
            r = False
            for x in c.a:
                i = self.implied(x)
                if i is True:
                    return True
                if i is None:
                    r = None
            return r
        return None

    def _replay(self, cond):
        n = self.trace[self.pos]
        if n.cond is not cond:
            self.die(Unsupported("non-deterministic re-execution"))
        self.pos += 1
        self.learn(cond if n.taken else cnot(cond))
        return n

    def branch(self, cond):
        if self.dead:
            raise self.dead
        k = cond.kind
        if k == "T":
            return True
        if k == "F":
            return False
        i = self.implied(cond)
        if i is not None:
            return i
        if self.pos < len(self.trace):
            return self._replay(cond).taken
        if len(self.trace) > self.MAX_DEPTH:
            self.die(Unsupported("more than %d decisions on one path" % self.MAX_DEPTH))
        m = self.get_model()
        taken = econd(cond, m)
        neg = cnot(cond)
        other = self.sat_with(neg if taken else cond)
        n = Node("b", cond, taken, self.level, other)
        self.trace.append(n)
        self.pos += 1
        self.branches += 1
        if other is not None:
            self._push(cond if taken else neg)
        self.learn(cond if taken else neg)
        return taken

    def assume(self, cond):
        """Adds a constraint; feasibility is decided lazily."""
        if self.dead:
            raise self.dead
        if cond.kind == "T":
            return
        if cond.kind == "F":
            self.die(Stop("infeasible"))
        i = self.implied(cond)
        if i is True:
            return
        if i is False:
            self.die(Stop("infeasible"))
        if self.pos < len(self.trace):
            self._replay(cond)
            return
        n = Node("a", cond, True, self.level, None)
        self.trace.append(n)
        self.pos += 1
        self._push(cond)
        self.learn(cond)
        if self.model is not None and not econd(cond, self.model):
            self.model = None

    def require(self, cond):
        """assume() that ends infeasible paths at once."""
        self.assume(cond)
        if self.pos >= len(self.trace):
            self.get_model()

    def concretize(self, lin):
        """Concrete int value of a term, forking over all of them."""
        if self.dead:
            raise self.dead
        if not lin.t:
            return lin.c
        v = self.conc.get(lin.id)
        if v is not None:
            return v
        s = 1 if lin.t[0][1] > 0 else -1
        part = _lin(0, lin.t if s > 0 else tuple((a, -k) for a, k in lin.t))
        b = self.bnd.get(part.id)
        if b is not None and b[0] == b[1]:
            return lin.c + s * b[0]
        while True:
            if self.pos < len(self.trace):
                n = self.trace[self.pos]
                if n.val is None:
                    self.die(Unsupported("non-deterministic re-execution at concretisation"))
                v = n.val
                if self._replay(eq0(ladd(lin, const(v), -1))).taken:
                    break
            else:
                v = elin(lin, self.get_model())
                c = eq0(ladd(lin, const(v), -1))
                if c.kind == "T":
                    break
                if self.implied(c):     # noted, so that a later run of this path finds the value again
                    self.trace.append(Node("v", c, True, self.level, None, v))
                    self.pos += 1
                    break
                got = self.branch(c)
                self.trace[-1].val = v
                if got:
                    break
        self.conc[lin.id] = v
        return v

    def var(self, name, lo, hi):
        """Input atom; its range is asserted on the path at first use."""
        a = _atom("var", name, lo, hi)
        if self.dead:
            raise self.dead
        if name in self.inputs:
            return a
        self.inputs[name] = None
        if self.pos < len(self.trace):
            if self.trace[self.pos].cond is not a:
                self.die(Unsupported("non-deterministic re-execution"))
            self.pos += 1
            return a
        self.trace.append(Node("v", a, True, self.level, None))
        self.pos += 1
        self.solver.push()
        self.solver.add(z3.And(zatom(a) >= lo, zatom(a) <= hi))
        self.level += 1
        return a


# ---------------------------------------------------------------------------
def _frac(x):
    if isinstance(x, (bool, int)):
        return Fraction(int(x))
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            return None
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    return None


def tonum(x):
    """Python/numpy number, SBool or SNum -> SNum; None when not a number or
    infinite."""
    if isinstance(x, SNum):
        return x
    if isinstance(x, SBool):
        return SNum(lite(x.e, const(1), const(0)), 1, False)
    if isinstance(x, (bool, int)):
        return SNum(const(int(x)), 1, False)
    if isinstance(x, (float, Fraction)):
        f = _frac(x)
        if f is None:
            return None
        return SNum(const(f.numerator), f.denominator, True)
    if hasattr(x, "dtype") and hasattr(x, "item") and getattr(x, "shape", None) == ():
        return tonum(x.item())
    return None


def mkbool(c):
    if c.kind == "T":
        return True
    if c.kind == "F":
        return False
    return SBool(c)


def mknum(n, d, isf):
    """SNum, or a Python number when the term is constant."""
    if not n.t and isinstance(d, int):
        if not isf and d == 1:
            return n.c
        fl = n.c / d
        if Fraction(fl) == Fraction(n.c, d):
            return fl
    return SNum(n, d, isf)


def bcond(b):
    """bool / SBool / anything truthy -> Cond (no fork for SBool)."""
    if isinstance(b, SBool):
        return b.e
    if isinstance(b, SNum):
        return bcond(b != 0)
    return TRUE if b else FALSE


def ite(c, a, b):
    """Number: a if c else b, without forking (c a Cond)."""
    if c.kind == "T":
        return a
    if c.kind == "F":
        return b
    x, y = tonum(a), tonum(b)
    p, q, d = SNum._pair(x, y)
    return mknum(lite(c, p, q), d, x.isf or y.isf)


class SBool(object):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ENG.branch(self.e)

    def __and__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(cand([self.e, bcond(o)]))
        return tonum(self) & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(cor([self.e, bcond(o)]))
        return tonum(self) | o
    __ror__ = __or__

    def __xor__(self, o):
        return notx(self == o)
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            q = bcond(o)
            return mkbool(cite(self.e, q, cnot(q)))
        return tonum(self) == o

    def __ne__(self, o):
        return notx(self.__eq__(o))

    def __hash__(self):
        return hash(bool(self))

    def __add__(self, o): return tonum(self) + o
    def __radd__(self, o): return o + tonum(self)
    def __sub__(self, o): return tonum(self) - o
    def __rsub__(self, o): return o - tonum(self)
    def __mul__(self, o): return tonum(self) * o
    __rmul__ = __mul__
    def __truediv__(self, o): return tonum(self) / o
    def __lt__(self, o): return tonum(self) < o
    def __le__(self, o): return tonum(self) <= o
    def __gt__(self, o): return tonum(self) > o
    def __ge__(self, o): return tonum(self) >= o
    def __index__(self): return int(bool(self))
    def __int__(self): return int(bool(self))
    def __float__(self): return float(bool(self))
    def __neg__(self): return -tonum(self)
    def __str__(self): return str(bool(self))
    __repr__ = __str__
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self


def notx(b):
    if isinstance(b, SBool):
        return mkbool(cnot(b.e))
    if b is NotImplemented:
        return b
    return not b


def _pow2(d):
    return d & (d - 1) == 0


class SNum(object):
    """n/d with n a Lin and d a positive int (or a positive Lin)."""
    __slots__ = ("n", "d", "isf")

    def __init__(self, n, d, isf):
        if isinstance(d, Lin) and not d.t:
            d = d.c
        self.n, self.d, self.isf = n, d, isf

    # -- helpers --------------------------------------------------------
    @staticmethod
    def _pair(a, b):
        """Numerators over a common denominator."""
        da, db = a.d, b.d
        an, bn = ENG.simp(a.n), ENG.simp(b.n)
        if da is db or da == db and isinstance(da, int):
            return an, bn, da
        if isinstance(da, int) and isinstance(db, int):
            l = da * db // math.gcd(da, db)
            return lscale(an, l // da), lscale(bn, l // db), l
        la = const(da) if isinstance(da, int) else da
        lb = const(db) if isinstance(db, int) else db
        return lmul(a.n, lb), lmul(b.n, la), lmul(la, lb)

    def _lin(self):
        """Integer term; the value must be integral by type."""
        return self.n

    # -- arithmetic -----------------------------------------------------
    def __add__(self, o):
        q = tonum(o)
        if q is None:
            return o if isinstance(o, float) else NotImplemented
        x, y, d = SNum._pair(self, q)
        return mknum(ladd(x, y), d, self.isf or q.isf)
    __radd__ = __add__

    def __sub__(self, o):
        q = tonum(o)
        if q is None:
            return -o if isinstance(o, float) else NotImplemented
        x, y, d = SNum._pair(self, q)
        return mknum(ladd(x, y, -1), d, self.isf or q.isf)

    def __rsub__(self, o):
        q = tonum(o)
        if q is None:
            return o if isinstance(o, float) else NotImplemented
        x, y, d = SNum._pair(self, q)
        return mknum(ladd(y, x, -1), d, self.isf or q.isf)

    def __neg__(self): return mknum(lscale(self.n, -1), self.d, self.isf)
    def __pos__(self): return self

    def __mul__(self, o):
        q = tonum(o)
        if q is None:
            if isinstance(o, float):
                raise_unsupported("infinite factor")
            return NotImplemented
        isf = self.isf or q.isf
        n = lmul(self.n, q.n)
        if isinstance(self.d, int) and isinstance(q.d, int):
            return SNum._reduce(n, self.d * q.d, isf)
        return mknum(n, lmul(SNum._dl(self.d), SNum._dl(q.d)), isf)
    __rmul__ = __mul__

    @staticmethod
    def _dl(d):
        return const(d) if isinstance(d, int) else d

    @staticmethod
    def _reduce(n, d, isf):
        if d != 1:
            g = math.gcd(d, n.c)
            for a, k in n.t:
                if g == 1:
                    break
                g = math.gcd(g, k)
            if g > 1:
                n, d = _lin(n.c // g, tuple((a, k // g) for a, k in n.t)), d // g
        return mknum(n, d, isf)

    def __truediv__(self, o):
        q = tonum(o)
        if q is None:
            if isinstance(o, float):
                return 0.0
            return NotImplemented
        return SNum._div(self, q)

    def __rtruediv__(self, o):
        q = tonum(o)
        if q is None:
            return NotImplemented
        return SNum._div(q, self)

    @staticmethod
    def _div(a, b):
        if not b.n.t and isinstance(b.d, int):
            c = b.n.c
            if c == 0:
                raise ZeroDivisionError("division by zero")
            f = Fraction(b.d, c)
            if not _pow2(f.denominator):
                ENG.inexact += 1
            n = lscale(a.n, f.numerator)
            if isinstance(a.d, int):
                return SNum._reduce(n, a.d * f.denominator, True)
            return mknum(n, lscale(a.d, f.denominator), True)
        if ENG.branch(eq0(b.n)):
            raise ZeroDivisionError("division by zero")
        ENG.inexact += 1
        pos = ENG.branch(le0(lscale(b.n, -1)))
        bn = b.n if pos else lscale(b.n, -1)
        an = a.n if pos else lscale(a.n, -1)
        if a.d is b.d or a.d == b.d:
            return SNum(an, bn, True)
        return SNum(lmul(an, SNum._dl(b.d)), lmul(bn, SNum._dl(a.d)), True)

    def _floor(self):
        """Lin of floor(self)."""
        if isinstance(self.d, int):
            return ENG.simp(ldiv(ENG.simp(self.n), self.d))
        return of_atom(_atom("ndiv", self.n, self.d))

    def __floor__(self): return mknum(self._floor(), 1, False)

    def _ceil(self):
        return lscale(SNum(lscale(self.n, -1), self.d, self.isf)._floor(), -1)

    def __ceil__(self): return mknum(self._ceil(), 1, False)

    def __trunc__(self):
        if isinstance(self.d, int) and self.d == 1:
            return mknum(self.n, 1, False)
        return mknum(lite(le0(lscale(self.n, -1)), self._floor(), self._ceil()), 1, False)

    def __round__(self, nd=None):
        if nd is not None and nd != 0:
            s = 10 ** nd if nd > 0 else Fraction(1, 10 ** -nd)
            if nd > 0 and isinstance(self.d, int) and _pow2(self.d) and self.d <= 2 ** nd:
                return self  # exactly representable, rounding changes nothing
            ENG.inexact += 1
            r = round(self * s)
            return (r / s) if self.isf else r
        f = self._floor()
        x = tonum((self - SNum(f, 1, False)) * 2)      # in [0,2)
        gt, eq = bcond(x > 1), bcond(x == 1)
        odd = cnot(eq0(ladd(f, ldiv(f, 2), -2)))
        r = lite(cor([gt, cand([eq, odd])]), ladd(f, const(1)), f)
        return mknum(r, 1, nd is not None and self.isf)

    def is_integer(self):
        f = self._floor()
        return mkbool(eq0(ladd(self.n, lmul(f, SNum._dl(self.d)), -1)))

    def __floordiv__(self, o):
        o = tonum(o)
        if o is None:
            return NotImplemented
        return SNum._fdiv(self, o)

    def __rfloordiv__(self, o):
        o = tonum(o)
        if o is None:
            return NotImplemented
        return SNum._fdiv(o, self)

    @staticmethod
    def _fdiv(a, b):
        isf = a.isf or b.isf
        x, y, d = SNum._pair(a, b)
        if not y.t:
            c = y.c
            if c == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            q = ENG.simp(ldiv(x, c) if c > 0 else ldiv(lscale(x, -1), -c))
        else:
            if ENG.branch(eq0(y)):
                raise ZeroDivisionError("integer division or modulo by zero")
            if not ENG.branch(le0(lscale(y, -1))):
                x, y = lscale(x, -1), lscale(y, -1)
            if not x.t and x.c == 0:
                q = const(0)
            else:
                q = of_atom(_atom("ndiv", x, y))
        return mknum(q, 1, isf)

    def __mod__(self, o):
        o = tonum(o)
        if o is None:
            return NotImplemented
        return SNum._mod(self, o)

    def __rmod__(self, o):
        o = tonum(o)
        if o is None:
            return NotImplemented
        return SNum._mod(o, self)

    @staticmethod
    def _mod(a, b):
        return a - b * SNum._fdiv(a, b)

    def __divmod__(self, o): return (self // o, self % o)
    def __rdivmod__(self, o): return (o // self, o % self)

    def __pow__(self, o, m=None):
        if isinstance(o, SNum):
            o = o._value()
        if isinstance(o, float) and o == int(o):
            o = int(o)
        if isinstance(o, int):
            if o >= 0:
                r = 1
                for _ in range(o):
                    r = r * self
                return r
            return 1 / (self ** -o)
        return self._value() ** o

    def __rpow__(self, o): return o ** self._value()

    def __abs__(self):
        return mknum(lite(le0(lscale(self.n, -1)), self.n, lscale(self.n, -1)), self.d, self.isf)

    # -- bits -----------------------------------------------------------
    def _needint(self, o=0):
        if self.isf or isinstance(o, float) or (isinstance(o, SNum) and o.isf):
            raise TypeError("unsupported operand type(s) for bit operation: 'float'")

    def __lshift__(self, o):
        self._needint(o)
        if isinstance(o, SNum):
            o = o._value()
        return self * (1 << o)

    def __rshift__(self, o):
        self._needint(o)
        if isinstance(o, SNum):
            o = o._value()
        return self // (1 << o)

    def __rlshift__(self, o): return o << self._value()
    def __rrshift__(self, o): return o >> self._value()

    def __and__(self, o):
        if isinstance(o, SBool):
            o = tonum(o)
        self._needint(o)
        if isinstance(o, SNum):
            return _bitop(self, o, "and")
        if not isinstance(o, int):
            return NotImplemented
        o = int(o)
        if o < 0:
            return self - (self & ~o)
        res, i = 0, 0
        while o >> i:
            if (o >> i) & 1:
                j = i
                while (o >> j) & 1:
                    j += 1
                res = res + ((self >> i) % (1 << (j - i))) * (1 << i)
                i = j
            else:
                i += 1
        return res
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SBool):
            o = tonum(o)
        self._needint(o)
        if isinstance(o, SNum):
            return _bitop(self, o, "or")
        return self + o - (self & o)
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, SBool):
            o = tonum(o)
        self._needint(o)
        if isinstance(o, SNum):
            return self + o - 2 * _bitop(self, o, "and")
        return self + o - 2 * (self & o)
    __rxor__ = __xor__

    def __invert__(self):
        self._needint()
        return -self - 1

    # -- comparison -----------------------------------------------------
    def _diff(self, o):
        """Lin with the sign of self - o; None if o is not a finite number."""
        q = tonum(o)
        if q is None:
            return None
        x, y, d = SNum._pair(self, q)
        return ladd(x, y, -1)

    def __eq__(self, o):
        l = self._diff(o)
        if l is None:
            return False if isinstance(o, float) else NotImplemented
        return mkbool(eq0(l))

    def __ne__(self, o): return notx(self.__eq__(o))

    def __le__(self, o):
        l = self._diff(o)
        if l is None:
            return o > 0 if isinstance(o, float) else NotImplemented
        return mkbool(le0(l))

    def __lt__(self, o):
        l = self._diff(o)
        if l is None:
            return o > 0 if isinstance(o, float) else NotImplemented
        return mkbool(le0(ladd(l, const(1))))

    def __ge__(self, o):
        l = self._diff(o)
        if l is None:
            return o < 0 if isinstance(o, float) else NotImplemented
        return mkbool(le0(lscale(l, -1)))

    def __gt__(self, o):
        l = self._diff(o)
        if l is None:
            return o < 0 if isinstance(o, float) else NotImplemented
        return mkbool(le0(ladd(const(1), l, -1)))

    def __bool__(self):
        return bool(self != 0)

    # -- concretisation --------------------------------------------------
    def _value(self):
        v = ENG.concretize(self.n)
        d = self.d if isinstance(self.d, int) else ENG.concretize(self.d)
        if d == 1 and not self.isf:
            return v
        return v / d

    def __index__(self):
        if self.isf:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return self._value()

    def __int__(self):
        return int(self._value())

    def __float__(self):
        return float(self._value())

    def __complex__(self):
        return complex(self._value())

    def __hash__(self):
        return hash(self._value())

    def __str__(self): return str(self._value())
    def __repr__(self): return repr(self._value())
    def __format__(self, spec): return format(self._value(), spec)
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    @property
    def real(self): return self

    @property
    def imag(self): return 0

    def conjugate(self): return self

    def bit_length(self): return self._value().bit_length()

    def as_integer_ratio(self): return self._value().as_integer_ratio()


def raise_unsupported(msg):
    ENG.die(Unsupported(msg))


def _bitop(a, b, op):
    def always(c):
        return c.kind == "T" or ENG.implied(c) is True or ENG.sat_with(cnot(c)) is None

    def below(x, k):
        return always(cand([le0(lscale(x.n, -1)), le0(ladd(x.n, const(1 - (1 << k))))]))
    if op == "or":   # disjoint bit ranges: or is addition
        for x, y in ((a, b), (b, a)):
            for k in range(1, 33):
                if below(y, k):
                    if always(eq0(ladd(x.n, ldiv(x.n, 1 << k), -(1 << k)))):
                        return x + y
                    break
    w = None
    for k in (1, 2, 3, 4, 7, 8, 14, 16, 21, 24, 28, 32):
        if below(a, k) and below(b, k):
            w = k
            break
    if w is None:
        return (a._value() & b._value()) if op == "and" else (a._value() | b._value())
    t = const(0)
    for i in range(w):
        x = bcond((a >> i) % 2 == 1)
        y = bcond((b >> i) % 2 == 1)
        t = ladd(t, lite(cand([x, y]) if op == "and" else cor([x, y]), const(1 << i), const(0)))
    return mknum(t, 1, False)


# ---------------------------------------------------------------------------
class SStr(object):
    """A string with unevaluated numeric pieces: parts are str, or
    (value, format function)."""
    __slots__ = ("parts",)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != "" or not isinstance(p, str):
                out.append(p)
        self.parts = out

    def _value(self):
        s = ""
        for p in self.parts:
            s += p if isinstance(p, str) else p[1](p[0])
        return s

    def __str__(self): return self._value()
    __repr__ = lambda self: repr(self._value())
    def __format__(self, spec): return format(self._value(), spec)
    def __hash__(self): return hash(self._value())

    def _single(self):
        """(value) when the string is exactly str(int SNum)."""
        if len(self.parts) == 1 and not isinstance(self.parts[0], str) \
                and self.parts[0][1] is str and isinstance(self.parts[0][0], SNum) \
                and not self.parts[0][0].isf:
            return self.parts[0][0]
        return None

    def _chars(self):
        """Code points when every piece is text or one character, else None."""
        out = []
        for p in self.parts:
            if isinstance(p, str):
                out += [ord(ch) for ch in p]
            elif p[1] is chr:
                out.append(p[0])
            else:
                return None
        return out

    def __eq__(self, o):
        if isinstance(o, (SStr, str)):
            a = self._chars()
            if a is not None:
                b = o._chars() if isinstance(o, SStr) else [ord(ch) for ch in o]
                if b is not None:
                    if len(a) != len(b):
                        return False
                    return mkbool(cand([bcond(x == y) for x, y in zip(a, b)]))
        if isinstance(o, SStr):
            a, b = self._single(), o._single()
            if a is not None and b is not None:
                return a == b
            return self._value() == o._value()
        if isinstance(o, str):
            a = self._single()
            if a is not None:
                try:
                    v = int(o)
                except ValueError:
                    return False
                return (a == v) if str(v) == o else False
            return self._value() == o
        return False

    def __ne__(self, o): return notx(self.__eq__(o))

    def __add__(self, o):
        if isinstance(o, SStr):
            return SStr(self.parts + o.parts)
        if isinstance(o, str):
            return SStr(self.parts + [o])
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return SStr([o] + self.parts)
        return NotImplemented

    def __lt__(self, o): return str(self) < str(o)
    def __gt__(self, o): return str(self) > str(o)
    def __le__(self, o): return str(self) <= str(o)
    def __ge__(self, o): return str(self) >= str(o)
    def __len__(self):
        l = self._chars()
        return len(l) if l is not None else len(str(self))

    def encode(self, *a, **k):
        from . import shims
        return shims.encode_text(self, *a, **k)

    def __bool__(self):
        return True if any(not isinstance(p, str) or p for p in self.parts) else False
    def __getitem__(self, i):
        l = self._chars()
        if l is None or not isinstance(i, (int, slice)):
            return str(self)[i]
        r = l[i] if isinstance(i, slice) else [l[i]]
        return SStr([(x, chr) if isinstance(x, SNum) else chr(x) for x in r])

    def __iter__(self):
        l = self._chars()
        if l is None:
            return iter(str(self))
        return iter([SStr([(x, chr)]) if isinstance(x, SNum) else chr(x) for x in l])

    def __contains__(self, x): return str(x) in str(self)
    def __mul__(self, n): return str(self) * n
    def __mod__(self, n): return str(self) % n
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(str(self), name)


def issym(x):
    return isinstance(x, (SNum, SBool, SStr))


def hassym(x, depth=4):
    if isinstance(x, (SNum, SBool, SStr)):
        return True
    if isinstance(x, (tuple, frozenset, list)) and depth:
        return any(hassym(y, depth - 1) for y in x)
    return getattr(type(x), "_symbolic_", False)


def evaluate(x, m):
    """Value of x under assignment m, as plain data."""
    if isinstance(x, SNum):
        v = elin(x.n, m)
        d = x.d if isinstance(x.d, int) else elin(x.d, m)
        return v if (d == 1 and not x.isf) else v / d
    if isinstance(x, SBool):
        return econd(x.e, m)
    if isinstance(x, SStr):
        return "".join(p if isinstance(p, str) else p[1](evaluate(p[0], m))
                       for p in x.parts)
    if getattr(type(x), "_symbolic_bytes_", False):
        return [evaluate(b, m) for b in x]
    if isinstance(x, (bytes, bytearray)):
        return list(x)
    if isinstance(x, tuple):
        return [evaluate(y, m) for y in x]
    if isinstance(x, list):
        return [evaluate(y, m) for y in x]
    if isinstance(x, (set, frozenset)):
        return sorted((evaluate(y, m) for y in x), key=repr)
    if isinstance(x, dict):
        return sorted(([evaluate(k, m), evaluate(v, m)] for k, v in x.items()), key=repr)
    if hasattr(x, "tolist"):
        return evaluate(x.tolist(), m)
    return x
