"""Linear forms over unknown numbers, and paths of comparisons between them (polyhedra over the rationals, tightened to integers)."""
import itertools
import math
from fractions import Fraction

from pyi import Infeasible, Unsupported


class Path:
    """Decisions of one run; other runs take the other ways."""

    cur = None

    def __init__(self, replay=()):
        self.replay = list(replay)
        self.taken = []  # (choice, number of ways)
        self.cons = []  # (Form, strict): form >= 0 or > 0
        self.ids = itertools.count()
        self.memo = {}
        self.real = set()

    def choose(self, n, what=None):
        k = len(self.taken)
        c = self.replay[k] if k < len(self.replay) else 0
        self.taken.append((c, n))
        return c

    def following(self):
        """The next run, None when all are done."""
        t = list(self.taken)
        while t:
            c, n = t.pop()
            if c + 1 < n:
                return [x for x, _ in t] + [c + 1]
        return None

    # ------------------------------------------------------------- numbers
    def new(self, name, real=False):
        a = f"{name}#{next(self.ids)}"
        if real:
            self.real.add(a)
        return Num({a: Fraction(1)}, Fraction(0), real)

    def norm(self, f, strict):
        """f > 0 over the integers is f >= 1."""
        if strict and not any(a in self.real for a in f.c):
            m = 1
            for x in list(f.c.values()) + [f.k]:
                m = m * x.denominator // math.gcd(m, x.denominator)
            return Num({a: x * m for a, x in f.c.items()}, f.k * m - 1), False
        return f, strict

    def add(self, f, strict=False):
        self.cons.append(self.norm(f, strict))

    def assume(self, f, strict=False):
        self.add(f, strict)
        if not feasible(self.cons):
            raise Infeasible()

    def possible(self, f, strict=False):
        return feasible(self.cons + [self.norm(f, strict)])

    def decide(self, f, strict):
        """Truth of f >= 0 (f > 0) on this path, which splits when both are possible."""
        if not f.c:
            return f.k > 0 if strict else f.k >= 0
        key = (f.key(), strict)
        if key in self.memo:
            return self.memo[key]
        n = -f
        y, no = self.possible(f, strict), self.possible(n, not strict)
        if y and no:
            r = self.choose(2) == 0
        elif not y and not no:
            raise Infeasible()
        else:
            r = y
        self.add(*((f, strict) if r else (n, not strict)))
        self.memo[key] = r
        return r


# Numbers may be written as text (by the judge, not by the code)
TEXT = False


def F(x):
    if isinstance(x, Num):
        return x
    if isinstance(x, bool):
        return Num({}, Fraction(int(x)))
    if isinstance(x, int) or isinstance(x, Fraction):
        return Num({}, Fraction(x))
    if isinstance(x, float) and math.isfinite(x):
        return Num({}, Fraction(x), True)
    return None


class Num:
    """Linear form. `r`: a float of the program."""

    __slots__ = ("c", "k", "r", "quo")

    def __init__(self, c, k, r=False):
        self.c = {a: x for a, x in c.items() if x}
        self.k = k
        self.r = r
        self.quo = None

    def key(self):
        return tuple(sorted(self.c.items())), self.k

    def __add__(self, o):
        o = F(o)
        if o is None:
            raise Unsupported("sum")
        d = dict(self.c)
        for a, x in o.c.items():
            d[a] = d.get(a, 0) + x
        return Num(d, self.k + o.k, self.r or o.r)

    __radd__ = __add__

    def __neg__(self):
        return Num({a: -x for a, x in self.c.items()}, -self.k, self.r)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = F(o)
        if o is None:
            raise Unsupported("difference")
        return self + (-o)

    def __rsub__(self, o):
        return F(o) + (-self)

    def __mul__(self, o):
        o = F(o)
        if o is None:
            raise Unsupported("product")
        if not o.c:
            return Num({a: x * o.k for a, x in self.c.items()}, self.k * o.k, self.r or o.r)
        if not self.c:
            return o * self.k if not self.r else Num((o * self.k).c, o.k * self.k, True)
        for a, b in ((self, o), (o, self)):
            # Product of a quotient and its divisor
            p = Path.cur
            if len(a.c) == 1 and not a.k:
                ((n, x),) = a.c.items()
                q = p.memo.get(("quo", n))
                if q is not None and q[0].key() == b.key():
                    return q[1] * x
            if len(b.c) >= 1:
                pass
        # Sum with a quotient: q + 1 times d
        for a, b in ((self, o), (o, self)):
            out = Num({}, Fraction(0))
            for n, x in a.c.items():
                q = Path.cur.memo.get(("quo", n))
                if q is None or q[0].key() != b.key():
                    break
                out = out + q[1] * x
            else:
                return out + b * a.k
        raise Unsupported("product of two unknowns")

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = F(o)
        if o is None:
            raise Unsupported("ratio")
        if o.c:
            raise Unsupported("ratio of unknowns")
        if not o.k:
            raise ZeroDivisionError("division by zero")
        return Num({a: x / o.k for a, x in self.c.items()}, self.k / o.k, True)

    def __rtruediv__(self, o):
        p = Path.cur
        o = F(o)
        if o is None or o.c:
            raise Unsupported("ratio of unknowns")
        h = p.memo.get(("inv", self.key()))
        if h is None:
            raise Unsupported("ratio to an unknown")
        return h * o.k

    def _div(self, o):
        p = Path.cur
        o = F(o)
        if o is None:
            raise Unsupported("quotient")
        if not self.c and not o.c:
            return Num({}, Fraction(self.k // o.k)), Num({}, self.k % o.k)
        key = ("div", self.key(), o.key())
        if key in p.memo:
            return p.memo[key]
        if not p.decide(o, True):
            raise Unsupported("quotient by a number which may not be positive")
        q = p.new("q")
        if o.c:
            prod = p.new("d*q", real=self.r or o.r)
            (n,) = q.c
            p.memo[("quo", n)] = (o, prod)
        else:
            prod = q * o.k
        r = self - prod
        # 0 <= r < d, and the product has the sign of the quotient
        p.add(r)
        p.add(o - r, True)
        # q >= 1 iff self >= d: the product is at least d then
        if p.decide(self, False):
            p.add(q)
            p.add(prod)
            if p.decide(self - o, False):
                p.add(q - 1)
                p.add(prod - o)
            else:
                p.add(-q)
                p.add(-prod)
        else:
            p.add(-q - 1)
            p.add(-prod - o)
        p.memo[key] = (q, r)
        return q, r

    def __floordiv__(self, o):
        return self._div(o)[0]

    def __mod__(self, o):
        return self._div(o)[1]

    def __divmod__(self, o):
        return self._div(o)

    def __rfloordiv__(self, o):
        return F(o)._div(self)[0]

    def __rmod__(self, o):
        return F(o)._div(self)[1]

    def __abs__(self):
        return self if Path.cur.decide(self, False) else -self

    def _round(self, lo, hi, slo, shi, what):
        """An integer n with lo <= n - self <= hi."""
        p = Path.cur
        if not self.c:
            return None
        if not any(a in p.real for a in self.c) and all(x.denominator == 1 for x in self.c.values()) and self.k.denominator == 1:
            return Num(self.c, self.k)
        key = (what, self.key())
        if key not in p.memo:
            n = p.new(what)
            p.add(n - self - lo, slo)
            p.add(self + hi - n, shi)
            p.memo[key] = n
        return p.memo[key]

    def __ceil__(self):
        return self._round(0, 1, False, True, "ceil")

    def __floor__(self):
        return self._round(-1, 0, True, False, "floor")

    def __trunc__(self):
        if Path.cur.decide(self, False):
            return self.__floor__()
        return self.__ceil__()

    def __round__(self, n=None):
        if n is not None:
            raise Unsupported("round to digits")
        h = Fraction(1, 2)
        return self._round(-h, h, False, False, "round")

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: (b - a, True))

    def __le__(self, o):
        return self._cmp(o, lambda a, b: (b - a, False))

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: (a - b, True))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: (a - b, False))

    def _cmp(self, o, f):
        if isinstance(o, float) and math.isinf(o):
            return f(0, -1 if o < 0 else 1)[0] > 0
        b = F(o)
        if b is None:
            raise Unsupported(f"comparison with {type(o).__name__}")
        return Path.cur.decide(*f(self, b))

    def __eq__(self, o):
        b = F(o)
        if b is None:
            return False
        d = self - b
        if not d.c:
            return d.k == 0
        p = Path.cur
        return p.decide(d, False) and p.decide(-d, False)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __bool__(self):
        return not self.__eq__(0)

    __hash__ = None

    def __index__(self):
        raise Unsupported("unknown number as an index")

    __int__ = __float__ = __index__

    def is_integer(self):
        raise Unsupported("is_integer")

    def __repr__(self):
        return " + ".join([f"{'' if x == 1 else str(x) + '*'}{a.split('#')[0]}" for a, x in self.c.items()] + ([str(self.k)] if self.k or not self.c else []))

    __str__ = __repr__

    def __format__(self, s):
        if TEXT:
            return repr(self)
        raise Unsupported("unknown number as text")


def to_float(x=0.0):
    if isinstance(x, Num):
        return Num(x.c, x.k, True)
    return float(x)


def to_int(x=0, *a):
    if isinstance(x, Num):
        return x.__trunc__()
    return int(x, *a)


def feasible(cons):
    """A rational point with every form >= 0 (> 0 where strict): the simplex method on exact fractions.

    Variables are free: x = u - v. maximize e with form - e >= 0 for strict ones, e <= 1."""
    return point(cons) is not None


def point(cons):
    cons = [(f, s) for f, s in cons]
    rows = []
    for f, s in cons:
        if not f.c:
            if f.k < 0 or (s and f.k == 0):
                return None
        else:
            rows.append((f, s))
    if not rows:
        return {}
    names = sorted({a for f, _ in rows for a in f.c})
    # Columns: u_i, v_i for every name, e, slack per row and for e <= 1; rhs last
    nv = 2 * len(names) + 1
    m = len(rows) + 1
    A, b = [], []
    for f, s in rows:
        # -f.c x + [s] e <= f.k
        r = [Fraction(0)] * nv
        for i, a in enumerate(names):
            x = f.c.get(a, 0)
            r[2 * i] = Fraction(-x)
            r[2 * i + 1] = Fraction(x)
        if s:
            r[nv - 1] = Fraction(1)
        A.append(r)
        b.append(Fraction(f.k))
    r = [Fraction(0)] * nv
    r[nv - 1] = Fraction(1)
    A.append(r)
    b.append(Fraction(1))
    # First phase with one artificial variable x0
    n = nv + 1
    T = [[-1 if j == nv else (A[i][j] if j < nv else 0) for j in range(n)] + [b[i]] for i in range(m)]
    T = [[Fraction(x) for x in row] for row in T]
    basis = [n + i for i in range(m)]
    nonb = list(range(n))
    if min(b) < 0:
        z = [Fraction(0)] * n + [Fraction(0)]
        z[nv] = Fraction(-1)  # maximize -x0
        i = min(range(m), key=lambda k: b[k])
        _pivot(T, z, basis, nonb, i, nonb.index(nv))
        _simplex(T, z, basis, nonb)
        val = -z[-1]
        if val != 0:
            return None
        if nv in basis:
            i = basis.index(nv)
            j = next((j for j in range(n) if T[i][j] != 0), None)
            if j is None:
                return None
            _pivot(T, z, basis, nonb, i, j)
    j0 = nonb.index(nv)
    for row in T:
        row[j0] = Fraction(0)
    # maximize e
    z = [Fraction(0)] * (n + 1)
    e = nv - 1
    if e in nonb:
        z[nonb.index(e)] = Fraction(1)
    else:
        i = basis.index(e)
        for j in range(n):
            z[j] = -T[i][j]
        z[-1] = -T[i][-1]
    z[j0] = Fraction(0)
    strict = any(s for _, s in rows)
    _simplex(T, z, basis, nonb)
    val = {}
    for i, v in enumerate(basis):
        val[v] = T[i][-1]
    if strict and val.get(e, Fraction(0)) <= 0:
        return None
    return {a: val.get(2 * i, Fraction(0)) - val.get(2 * i + 1, Fraction(0)) for i, a in enumerate(names)}


def _simplex(T, z, basis, nonb):
    for _ in range(5000):
        js = [j for j in range(len(nonb)) if z[j] > 0]
        if not js:
            return
        j = min(js, key=lambda j: nonb[j])
        best = None
        for i in range(len(T)):
            if T[i][j] > 0:
                r = T[i][-1] / T[i][j]
                if best is None or r < best[0] or (r == best[0] and basis[i] < basis[best[1]]):
                    best = (r, i)
        if best is None:
            return
        _pivot(T, z, basis, nonb, best[1], j)
    raise Unsupported("simplex")


def _pivot(T, z, basis, nonb, i, j):
    """Basic variable of the row i leaves, the nonbasic one of the column j enters. Rows: basic + sum(nonbasic * a) = rhs; objective: sum(z * nonbasic) - z[-1]."""
    p = T[i][j]
    row = [x / p for x in T[i]]
    row[j] = 1 / p
    T[i] = row
    for k, r in enumerate(T):
        if k != i and r[j]:
            f = r[j]
            nr = [x - f * y for x, y in zip(r, row)]
            nr[j] = -f * row[j]
            T[k] = nr
    f = z[j]
    if f:
        nz = [x - f * y for x, y in zip(z[:-1], row[:-1])]
        nz[j] = -f * row[j]
        z[:] = nz + [z[-1] - f * row[-1]]
    basis[i], nonb[j] = nonb[j], basis[i]
