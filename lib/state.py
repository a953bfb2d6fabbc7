"""Abstract state: memory cells and the facts known on a trace partition.

Domains: unsigned and signed intervals of terms, known bits, linear constraints over exact
integers (entailment by Fourier-Motzkin projection) and boolean facts."""
from terms import (
    Term, C, TRUE, FALSE, bits, mkbits, zext_src, shift_src, lin, decl, is_c, scv, not_, is_op, map_term, atoms, tainted, eq, sub,
)

BIG = 1 << 200


def ashr_src(t):
    """(u, k) with t == u >> k (arithmetic, same width, k > 0)."""
    b = t.a
    x = b[0]
    if x.__class__ is not tuple or x[1] == 0 or x[2]:
        return None
    u, k = x[0], x[1]
    if u.w != t.w:
        return None
    top = (u, u.w - 1, 0)
    for i in range(t.w):
        if b[i] != ((u, i + k, 0) if i + k < u.w else top):
            return None
    return u, k


_atoms = {}


def bit_atoms(t):
    r = _atoms.get(t)
    if r is None:
        r = _atoms[t] = frozenset(b[0] for b in t.a if b.__class__ is tuple)
    return r


_trim = {}


def trim(t):
    """The number without its leading zero bits."""
    r = _trim.get(t)
    if r is None:
        n = t.w
        while n > 1 and t.a[n - 1] == 0 and t.a[n - 1].__class__ is int:
            n -= 1
        r = _trim[t] = t if n == t.w or n % 7 or shift_src(t) is not None else mkbits(t.a[:n])
    return r


class NeedFork(Exception):
    def __init__(self, cond):
        self.cond = cond


class Infeasible(Exception):
    pass


class State:
    __slots__ = ("cells", "rng", "srng", "bitk", "lins", "pred", "ev", "nev", "cache", "tags", "cnt", "path", "bite")

    def __init__(self):
        self.cells = {}
        self.rng = {}
        self.srng = {}
        self.bitk = {}
        self.lins = ()
        self.pred = {}
        self.ev = None
        self.nev = 0
        self.cache = {}
        self.tags = ()
        self.cnt = {}
        self.path = None
        self.bite = {}

    def clone(self):
        s = State.__new__(State)
        s.cells = dict(self.cells)
        s.rng = dict(self.rng)
        s.srng = dict(self.srng)
        s.bitk = dict(self.bitk)
        s.lins = self.lins
        s.pred = dict(self.pred)
        s.ev = self.ev
        s.nev = self.nev
        s.cache = self.cache
        s.tags = self.tags
        s.cnt = dict(self.cnt)
        s.path = self.path
        s.bite = dict(self.bite) if self.bite else {}
        return s

    # Facts snapshot, used to forget what was learned
    def facts(self):
        return (dict(self.rng), dict(self.srng), dict(self.bitk), self.lins, dict(self.pred), self.path, dict(self.bite))

    def set_facts(self, f):
        self.rng, self.srng, self.bitk, self.lins, self.pred, self.path = dict(f[0]), dict(f[1]), dict(f[2]), f[3], dict(f[4]), f[5]
        self.bite = dict(f[6])
        self.cache = {}

    def event(self, *e):
        self.ev = (self.ev, e)
        self.nev += 1

    def events(self):
        r = []
        n = self.ev
        while n is not None:
            r.append(n[1])
            n = n[0]
        r.reverse()
        return r

    def dirty(self):
        self.cache = {}

    # Intervals
    def bit(self, t, i):
        """Known value of a bit, or None."""
        k = self.bitk.get((t, i))
        if k is not None:
            return k
        if self.bite and (t, i) in self.bite:
            u, j, n = self.root((t, i, 0))
            k = self._bit(u, j)
            if k is not None:
                return k ^ n
        return self._bit(t, i)

    def root(self, b):
        """Representative of equal bits."""
        e = self.bite
        while True:
            p = e.get((b[0], b[1]))
            if p is None:
                return b
            b = (p[0], p[1], p[2] ^ b[2])

    def union(self, p, q):
        """Both bits are equal."""
        p, q = self.root(p), self.root(q)
        if p[0] is q[0] and p[1] == q[1]:
            return p[2] == q[2]
        a, b = self.bit(p[0], p[1]), self.bit(q[0], q[1])
        if a is not None:
            return self._setbit(q[0], q[1], a ^ p[2] ^ q[2])
        if b is not None:
            return self._setbit(p[0], p[1], b ^ p[2] ^ q[2])
        self.bite[(p[0], p[1])] = (q[0], q[1], p[2] ^ q[2])
        return True

    def consistent(self):
        """Facts learned earlier hold with those learned later."""
        self.cache = {}
        for b, v in self.pred.items():
            if b.op == "op" and b.a[0] in ("eq", "and", "or", "not", "ult", "slt"):
                d = self._decide(b, False)
                if d is not None and d != v:
                    return False
        return True

    def _bit(self, t, i):
        k = self.bitk.get((t, i))
        if k is not None:
            return k
        r = self.rng.get(t)
        d = decl(t)
        if d is not None:
            r = d if r is None else (max(r[0], d[0]), min(r[1], d[1]))
        if r is not None:
            lo, hi = r
            if lo >> i == hi >> i:
                return (lo >> i) & 1
        if t.op == "op":
            if t.a[0] == "ite":
                return None
            lo, hi = self.urange(t)
            if lo >> i == hi >> i:
                return (lo >> i) & 1
        elif t.op == "lin":
            lo, hi = self.urange(t)
            if lo >> i == hi >> i:
                return (lo >> i) & 1
        return None

    def bval(self, b):
        if b.__class__ is int:
            return b
        v = self.bit(b[0], b[1])
        if v is None:
            return None
        return v ^ b[2]

    def urange(self, t):
        if t.op == "c":
            return t.a, t.a
        c = self.cache.get(t)
        if c is not None:
            return c
        self.cache[t] = (0, (1 << t.w) - 1)
        r = self._urange(t)
        d = self.rng.get(t)
        if d is not None:
            r = (max(r[0], d[0]), min(r[1], d[1]))
        self.cache[t] = r
        return r

    def _urange(self, t):
        w = t.w
        full = (0, (1 << w) - 1)
        if t.op == "v":
            d = decl(t) or full
            # Known bits
            lo, hi = 0, 0
            any_ = False
            for i in range(w):
                k = self.bitk.get((t, i))
                if k is None:
                    hi |= 1 << i
                else:
                    any_ = True
                    if k:
                        lo |= 1 << i
                        hi |= 1 << i
            if any_:
                r = self.rng.get(t)
                if r is not None:
                    d = max(d[0], r[0]), min(d[1], r[1])
                mask = hi & ~lo  # unknown bits
                l2 = next_match(max(lo, d[0]), mask, lo, w)
                h2 = prev_match(min(hi, d[1]), mask, lo, w)
                if l2 is not None and h2 is not None:
                    return l2, h2
                return max(lo, d[0]), min(hi, d[1])
            return d
        if t.op == "bits":
            u = zext_src(t)
            if u is not None:
                return self.urange(u)
            u = trim(t)
            if u is not t:
                return self.urange(u)
            s = shift_src(t)
            lo = hi = 0
            for i, b in enumerate(t.a):
                k = self.bval(b)
                if k is None:
                    hi |= 1 << i
                elif k:
                    lo |= 1 << i
                    hi |= 1 << i
            if s is not None:
                a, b = self.urange(s[0])
                lo = max(lo, a >> s[1])
                hi = min(hi, b >> s[1])
            else:
                # Low bits of a small number
                x = t.a[0]
                if x.__class__ is tuple and x[1] == 0 and not x[2]:
                    u = x[0]
                    n = 0
                    while n < w and n < u.w and t.a[n].__class__ is tuple and t.a[n][0] is u and t.a[n][1] == n and not t.a[n][2]:
                        n += 1
                    if all(y == 0 for y in t.a[n:]):
                        a, b = self.urange(u)
                        if b < (1 << n):
                            lo, hi = max(lo, a), min(hi, b)
            return lo, hi
        if t.op == "lin":
            m = self.math(t)
            if m is not None:
                return self.mrange(m, full)
            return full
        n = t.a[0]
        if n == "urem":
            a, b = self.urange(t.a[1]), self.urange(t.a[2])
            if b[0] > 0:
                if a[1] < b[0]:
                    return a
                return 0, min(a[1], b[1] - 1)
            return full
        if n == "udiv":
            a, b = self.urange(t.a[1]), self.urange(t.a[2])
            if b[0] > 0:
                return a[0] // b[1], a[1] // b[0]
            return full
        if n == "mul":
            a, b = self.urange(t.a[1]), self.urange(t.a[2])
            if a[1] * b[1] <= full[1]:
                return a[0] * b[0], a[1] * b[1]
            return full
        if n == "ite":
            a, b = self.urange(t.a[2]), self.urange(t.a[3])
            return min(a[0], b[0]), max(a[1], b[1])
        if n == "and":
            a, b = self.urange(t.a[1]), self.urange(t.a[2])
            return 0, min(a[1], b[1])
        if n == "or":
            a, b = self.urange(t.a[1]), self.urange(t.a[2])
            return max(a[0], b[0]), (1 << max(a[1], b[1]).bit_length()) - 1
        if n == "xor":
            a, b = self.urange(t.a[1]), self.urange(t.a[2])
            return 0, (1 << max(a[1], b[1]).bit_length()) - 1
        return full

    def mrange(self, m, full=None):
        lo = hi = m[0]
        for a, k in m[1].items():
            r = self.urange(a)
            if k > 0:
                lo += k * r[0]
                hi += k * r[1]
            else:
                lo += k * r[1]
                hi += k * r[0]
        if full is not None:
            lo, hi = max(lo, full[0]), min(hi, full[1])
            if lo > hi:
                return full
        return lo, hi

    def srange(self, t):
        """Signed range."""
        w = t.w
        half = 1 << (w - 1)
        lo, hi = self.urange(t)
        if hi < half:
            r = (lo, hi)
        elif lo >= half:
            r = (lo - 2 * half, hi - 2 * half)
        else:
            r = (-half, half - 1)
            if t.op == "bits":
                # Sign extension of a shorter value
                b = t.a
                n = w - 1
                while n > 0 and b[n - 1] == b[w - 1]:
                    n -= 1
                if n < w - 1:
                    h = 1 << n
                    r = (-h, h - 1)
        if t.op == "lin" and r == (-half, half - 1):
            c = t.a[0]
            l = h = c - 2 * half if c >= half else c
            for x, k in t.a[1]:
                if k >= half:
                    k -= 2 * half
                a, b = self.srange(x)
                l += min(k * a, k * b)
                h += max(k * a, k * b)
            if -half <= l and h < half:
                r = (l, h)
        if t.op == "bits":
            x = ashr_src(t)
            if x is not None:
                a, b = self.srange(x[0])
                r = (max(r[0], a >> x[1]), min(r[1], b >> x[1]))
        d = self.srng.get(t)
        if d is not None:
            r = (max(r[0], d[0]), min(r[1], d[1]))
        return r

    # Exact integer forms
    def math(self, t):
        """(const, {atom: coef}) equal to the unsigned value of the term."""
        if t.op == "c":
            return t.a, {}
        if t.op == "bits":
            u = zext_src(t)
            if u is not None:
                return self.math(u)
            b = t.a
            # Low part of a number which fits
            x = b[0]
            if x.__class__ is tuple and x[1] == 0 and not x[2]:
                u = x[0]
                n = 0
                while n < t.w and n < u.w and b[n].__class__ is tuple and b[n][0] is u and b[n][1] == n and not b[n][2]:
                    n += 1
                if all(y == 0 for y in b[n:]) and self.urange(u)[1] < (1 << n):
                    return self.math(u)
            # u << k
            k = 0
            while k < t.w and b[k] == 0:
                k += 1
            if 0 < k < t.w:
                v = mkbits(b[k:] + (0,) * k)
                u = zext_src(v)
                if u is not None:
                    c, d = self.math(u)
                    return c << k, {x: y << k for x, y in d.items()}
            return 0, {trim(t): 1}
        if t.op == "lin":
            k = ("m", t)
            m = self.cache.get(k)
            if m is None:
                self.cache[k] = (0, {t: 1})
                m = self.cache[k] = self._mlin(t)
            return m
        return 0, {t: 1}

    def _mlin(self, t):
        w = t.w
        M = 1 << w
        half = M >> 1
        c, d = t.a[0], {}
        if c >= half:
            c -= M
        for a, k in t.a[1]:
            if k >= half:
                k -= M
            ca, da = self.math(a)
            c += k * ca
            for x, y in da.items():
                d[x] = d.get(x, 0) + k * y
        d = {x: y for x, y in d.items() if y}
        lo, hi = self.mrange((c, d))
        if lo >= 0 and hi < M:
            return c, d
        if lo > -M and hi < 2 * M:
            if (lo >= 0 or self.entails(c, d)) and (hi < M or self.entails(M - 1 - c, {x: -y for x, y in d.items()})):
                return c, d
        # Negative constant may stand for the big one
        if t.a[0] >= half:
            c2 = c + M
            lo, hi = lo + M, hi + M
            if lo >= 0 and hi < M:
                return c2, d
        return 0, {t: 1}

    # Linear entailment: c + sum(k * a) >= 0
    def entails(self, c, d):
        d = {x: y for x, y in d.items() if y}
        if not d:
            return c >= 0
        key = ("e", c, tuple(sorted(((x.id, y) for x, y in d.items()))))
        r = self.cache.get(key)
        if r is None:
            self.cache[key] = False
            r = self.cache[key] = self._entails(c, d)
        return r

    def _entails(self, c, d):
        lo, _ = self.mrange((c, d))
        if lo >= 0:
            return True
        # Relevant constraints
        want = set(d)
        cons = []
        pool = list(self.lins)
        used = [False] * len(pool)
        derived = set()
        for _ in range(12):
            grown = False
            for t in list(want):
                if t in derived:
                    continue
                derived.add(t)
                for cc, dd in self.derived(t):
                    cons.append((cc, dd))
                    for x in dd:
                        if x not in want:
                            want.add(x)
                            grown = True
            for i, (cc, items) in enumerate(pool):
                if used[i]:
                    continue
                if any(a in want for a, _ in items):
                    used[i] = True
                    if any(a.op == "lin" for a, _ in items):
                        # The sum may be known not to wrap by now
                        dd = {}
                        for a, k in items:
                            m = self.math(a)
                            cc += k * m[0]
                            for x, y in m[1].items():
                                dd[x] = dd.get(x, 0) + k * y
                        dd = {x: y for x, y in dd.items() if y}
                        items = tuple(dd.items())
                    cons.append((cc, dict(items)))
                    for a, _ in items:
                        if a not in want:
                            want.add(a)
                            grown = True
            if not grown:
                break
        if len(cons) > 500:
            cons = cons[:500]
        sys_ = [(-1 - c, {x: -y for x, y in d.items()})] + cons
        vars_ = set()
        for _, dd in sys_:
            vars_ |= set(dd)
        for v in vars_:
            lo, hi = self.urange(v)
            sys_.append((-lo, {v: 1}))
            if hi < BIG:
                sys_.append((hi, {v: -1}))
        r = dbm_infeasible(sys_, vars_)
        if r is not None:
            return r
        if len(sys_) > 90:
            # The others and what touches them
            core = {x for _, dd in sys_ if len(dd) > 2 or (len(dd) == 2 and sum(dd.values()) != 0) for x in dd} | set(d)
            sys_ = [s for s in sys_ if all(x in core for x in s[1])][:90]
            vars_ = {x for _, dd in sys_ for x in dd}
        return fm_infeasible(sys_, vars_)

    def derived(self, t):
        """Constraints which follow from the definition of an atom."""
        r = []
        if t.op == "bits":
            s = shift_src(t)
            if s is not None and s[1] > 0:
                u, k = s
                m = self.math(u)
                f = 1 << k
                d = dict(m[1])
                d[t] = d.get(t, 0) - f
                r.append((m[0], d))
                d = {x: -y for x, y in m[1].items()}
                d[t] = d.get(t, 0) + f
                r.append((f - 1 - m[0], d))
            elif t.a[0].__class__ is tuple and t.a[0][1] == 0 and not t.a[0][2]:
                # Low bits never exceed the number
                u = t.a[0][0]
                if all(b == 0 or (b.__class__ is tuple and b[0] is u and b[1] == i and not b[2]) for i, b in enumerate(t.a)):
                    m = self.math(u)
                    if t not in m[1]:
                        d = dict(m[1])
                        d[t] = d.get(t, 0) - 1
                        r.append((m[0], d))
        elif t.op == "op":
            n = t.a[0]
            if n in ("udiv", "urem") and self.urange(t.a[2])[0] > 0:
                m = self.math(t.a[1])
                if t not in m[1]:
                    d = dict(m[1])
                    if n == "udiv" and is_c(t.a[2]):
                        k = t.a[2].a
                        d[t] = d.get(t, 0) - k
                        r.append((m[0], d))
                        d = {x: -y for x, y in m[1].items()}
                        d[t] = d.get(t, 0) + k
                        r.append((k - 1 - m[0], d))
                    else:
                        d[t] = d.get(t, 0) - 1
                        r.append((m[0], d))
                if n == "urem":
                    m = self.math(t.a[2])
                    d = dict(m[1])
                    d[t] = d.get(t, 0) - 1
                    r.append((m[0] - 1, d))
            elif n == "umin":
                for x in t.a[1:]:
                    m = self.math(x)
                    d = dict(m[1])
                    d[t] = d.get(t, 0) - 1
                    r.append((m[0], d))
            elif n == "umax":
                for x in t.a[1:]:
                    m = self.math(x)
                    d = {a: -k for a, k in m[1].items()}
                    d[t] = d.get(t, 0) + 1
                    r.append((-m[0], d))
        return r

    def diff(self, a, b):
        """math(a) - math(b)"""
        c, d = self.math(a)
        c2, d2 = self.math(b)
        r = dict(d)
        for x, y in d2.items():
            r[x] = r.get(x, 0) - y
        return c - c2, {x: y for x, y in r.items() if y}

    # Truth of a boolean term
    def decide(self, b):
        if b.op == "c":
            return bool(b.a)
        k = ("d", b)
        r = self.cache.get(k, 0)
        if r == 0:
            r = self.cache[k] = self._decide(b)
        return r

    def _decide(self, b, known=True):
        p = self.pred.get(b) if known else None
        if p is not None:
            return p
        if b.op == "bits":
            v = self.bval(b.a[0])
            return None if v is None else bool(v)
        if b.op == "v":
            lo, hi = self.urange(b)
            return bool(lo) if lo == hi else None
        if b.op == "lin":
            return None
        n = b.a[0]
        if n == "not":
            v = self.decide(b.a[1])
            return None if v is None else not v
        if n == "eq":
            return self._deq(b.a[1], b.a[2])
        if n == "ult":
            return self._dult(b.a[1], b.a[2])
        if n == "slt":
            x, y = b.a[1], b.a[2]
            rx, ry = self.srange(x), self.srange(y)
            if rx[1] < ry[0]:
                return True
            if rx[0] >= ry[1]:
                return False
            if (rx[0] >= 0 and ry[0] >= 0) or (rx[1] < 0 and ry[1] < 0):
                return self._dult(x, y)
            return None
        if n in ("and", "or"):
            x, y = self.decide(b.a[1]), self.decide(b.a[2])
            if n == "and":
                if x is False or y is False:
                    return False
                return True if x and y else None
            if x or y:
                return True
            return False if x is False and y is False else None
        if n == "xor":
            x, y = self.decide(b.a[1]), self.decide(b.a[2])
            return None if x is None or y is None else x != y
        if n == "ite":
            c = self.decide(b.a[1])
            if c is not None:
                return self.decide(b.a[2 if c else 3])
            x, y = self.decide(b.a[2]), self.decide(b.a[3])
            return x if x is not None and x == y else None
        return None

    def _deq(self, x, y):
        if x is y:
            return True
        if x.w > 1 and (x.op == "lin" or y.op == "lin"):
            d = sub(x, y)
            if d.op == "c":
                return d.a == 0
        rx, ry = self.urange(x), self.urange(y)
        if rx[1] < ry[0] or ry[1] < rx[0]:
            return False
        if rx[0] == rx[1] == ry[0] == ry[1]:
            return True
        if x.w == 1:
            a, b = self.decide(x), self.decide(y)
            if a is not None and b is not None:
                return a == b
            return None
        if x.op == "bits" or y.op == "bits" or self.bite and x.op == "v" and y.op == "v":
            same = True
            for p, q in zip(bits(x), bits(y)):
                if p == q:
                    continue
                if self.bite:
                    if p.__class__ is tuple:
                        p = self.root(p)
                    if q.__class__ is tuple:
                        q = self.root(q)
                    if p == q:
                        continue
                if p.__class__ is tuple and q.__class__ is tuple and p[0] is q[0] and p[1] == q[1]:
                    return False
                p, q = self.bval(p), self.bval(q)
                if p is not None and q is not None:
                    if p != q:
                        return False
                else:
                    same = False
            if same:
                return True
        if x.w > 1:
            c, d = self.diff(x, y)
            if not d:
                return c == 0
            nd = {a: -k for a, k in d.items()}
            ge = self.entails(c, d)
            le = self.entails(-c, nd)
            if ge and le:
                return True
            if ge and self.entails(c - 1, d):
                return False
            if le and self.entails(-c - 1, nd):
                return False
        return None

    def _dult(self, x, y):
        rx, ry = self.urange(x), self.urange(y)
        if rx[1] < ry[0]:
            return True
        if rx[0] >= ry[1]:
            return False
        if self.bite and x.op == "bits" and y.op == "bits" and self._samebits(x, y):
            return False
        c, d = self.diff(y, x)
        if self.entails(c - 1, d):
            return True
        if self.entails(-c, {a: -k for a, k in d.items()}):
            return False
        return None

    def _samebits(self, x, y):
        for p, q in zip(bits(x), bits(y)):
            if p == q:
                continue
            if p.__class__ is tuple:
                p = self.root(p)
            if q.__class__ is tuple:
                q = self.root(q)
            if p != q:
                p, q = self.bval(p) if p.__class__ is tuple else p, self.bval(q) if q.__class__ is tuple else q
                if p is None or p != q:
                    return False
        return True

    # Learning
    def assume(self, b, v=True):
        """Add the fact. False - the partition is infeasible."""
        p = self.decide(b)
        if p is not None:
            return p == v
        self.path = (self.path, b, v)
        return self._assume(b, v)

    def _assume(self, b, v):
        self.pred[b] = v
        self.cache = {}
        if b.op == "bits":
            x = b.a[0]
            val = int(v) ^ x[2]
            return self._setbit(x[0], x[1], val)
        if b.op == "v":
            return self._setrng(b, int(v), int(v))
        if b.op != "op":
            return True
        n = b.a[0]
        if n == "not":
            return self.assume(b.a[1], not v)
        if n == "eq":
            return self._aeq(b.a[1], b.a[2], v)
        if n == "ult":
            x, y = b.a[1], b.a[2]
            if v:
                return self._ale(x, y, 1)
            return self._ale(y, x, 0)
        if n == "slt":
            x, y = b.a[1], b.a[2]
            rx, ry = self.srange(x), self.srange(y)
            if v:
                ok = self._setsrng(x, rx[0], min(rx[1], ry[1] - 1)) and self._setsrng(y, max(ry[0], rx[0] + 1), ry[1])
            else:
                ok = self._setsrng(x, max(rx[0], ry[0]), rx[1]) and self._setsrng(y, ry[0], min(ry[1], rx[1]))
            if not ok:
                return False
            rx, ry = self.srange(x), self.srange(y)
            if (rx[0] >= 0 and ry[0] >= 0) or (rx[1] < 0 and ry[1] < 0):
                return self._ale(x, y, 1) if v else self._ale(y, x, 0)
            return True
        if n == "and":
            if v:
                return self.assume(b.a[1], True) and self.assume(b.a[2], True)
            for i, j in ((1, 2), (2, 1)):
                if self.decide(b.a[i]):
                    return self.assume(b.a[j], False)
            return True
        if n == "or":
            if not v:
                return self.assume(b.a[1], False) and self.assume(b.a[2], False)
            for i, j in ((1, 2), (2, 1)):
                if self.decide(b.a[i]) is False:
                    return self.assume(b.a[j], True)
            return True
        return True

    def _setbit(self, t, i, v):
        k = self.bit(t, i)
        if k is not None:
            return k == v
        self.bitk[(t, i)] = v
        if t.w == 1:
            self.pred[t] = bool(v)
        self.cache = {}
        if t.op == "op" and t.w == 1:
            return self._assume(t, bool(v))
        return self._recheck(t)

    def _recheck(self, t):
        """Recorded ranges against the bits known now."""
        if t.op == "v":
            lo, hi = self.urange(t)
            if lo > hi:
                return False
        for u, (lo, hi) in self.rng.items():
            if u.op != "bits" or t not in bit_atoms(u):
                continue
            l = h = 0
            for i, b in enumerate(u.a):
                k = self.bval(b) if b.__class__ is not int else b
                if k is None:
                    h |= 1 << i
                elif k:
                    l |= 1 << i
                    h |= 1 << i
            if h < lo or l > hi:
                return False
        return True

    def _setrng(self, t, lo, hi):
        a, b = self.urange(t)
        lo, hi = max(lo, a), min(hi, b)
        if lo > hi:
            return False
        if (lo, hi) == (a, b):
            return True
        if t.op == "bits":
            u = zext_src(t)
            if u is None and trim(t) is not t:
                u = trim(t)
            if u is not None:
                return self._setrng(u, lo, hi)
        elif t.op == "lin" and len(t.a[1]) == 1:
            # Exact: the sum does not wrap
            ((x, k),) = t.a[1]
            if k == 1:
                p, q = self.urange(x)
                c = t.a[0]
                if c >> (t.w - 1):
                    c -= 1 << t.w
                if p + c >= 0 and q + c < 1 << t.w:
                    return self._setrng(x, lo - c, hi - c)
        if t.op in ("lin", "bits") and self.bitk:
            # With the bits which are known
            u = self.norm(t)
            if u is not t and u.op in ("lin", "bits") and not self._setrng(u, lo, hi):
                return False
        self.rng[t] = (lo, hi)
        self.cache = {}
        if t.op == "bits":
            x = ashr_src(t)
            if x is not None and hi < (1 << (t.w - 1)):
                # Sign is known to be clear, the source is not negative
                if not self._setsrng(x[0], lo << x[1], (hi << x[1]) | ((1 << x[1]) - 1)):
                    return False
            else:
                x = shift_src(t)
                if x is not None:
                    if not self._setrng(x[0], lo << x[1], (hi << x[1]) | ((1 << x[1]) - 1)):
                        return False
            # Common leading bits
            for i in range(t.w - 1, -1, -1):
                if lo >> i != hi >> i:
                    break
                x = t.a[i]
                if x.__class__ is tuple:
                    if not self._setbit(x[0], x[1], ((lo >> i) & 1) ^ x[2]):
                        return False
                elif x != (lo >> i) & 1:
                    return False
        return True

    def _setsrng(self, t, lo, hi):
        a, b = self.srange(t)
        lo, hi = max(lo, a), min(hi, b)
        if lo > hi:
            return False
        if t.op == "c":
            return True
        if lo >= 0:
            return self._setrng(t, lo, hi)
        if hi < 0:
            M = 1 << t.w
            if t.op == "bits":
                x = ashr_src(t)
                if x is not None and not self._setsrng(x[0], lo << x[1], (hi << x[1]) | ((1 << x[1]) - 1)):
                    return False
            return self._setrng(t, lo + M, hi + M)
        self.srng[t] = (lo, hi)
        self.cache = {}
        if t.op == "bits":
            x = ashr_src(t)
            if x is not None:
                return self._setsrng(x[0], lo << x[1], (hi << x[1]) | ((1 << x[1]) - 1))
        return True

    def addlin(self, c, d):
        d = {x: y for x, y in d.items() if y}
        if not d:
            return c >= 0
        if len(d) == 1:
            ((t, k),) = d.items()
            # c + k*t >= 0
            if k > 0:
                return self._setrng(t, -(c // k), (1 << t.w) - 1)
            return self._setrng(t, 0, c // -k) if c >= 0 else False
        self.lins = self.lins + ((c, tuple(sorted(d.items(), key=lambda x: x[0].id))),)
        self.cache = {}
        return True

    def _ale(self, x, y, gap):
        """x + gap <= y"""
        c, d = self.diff(y, x)
        rx, ry = self.urange(x), self.urange(y)
        if not self._setrng(x, rx[0], ry[1] - gap):
            return False
        if not self._setrng(y, rx[0] + gap, ry[1]):
            return False
        return self.addlin(c - gap, d)

    def _aeq(self, x, y, v):
        if v:
            if x.w == 1:
                a, b = self.decide(x), self.decide(y)
                if a is not None:
                    return self.assume(y, a)
                if b is not None:
                    return self.assume(x, b)
                return True
            if x.op == "bits" or y.op == "bits":
                for p, q in zip(bits(x), bits(y)):
                    if q.__class__ is int and p.__class__ is tuple:
                        if not self._setbit(p[0], p[1], q ^ p[2]):
                            return False
                    elif p.__class__ is int and q.__class__ is tuple:
                        if not self._setbit(q[0], q[1], p ^ q[2]):
                            return False
                    elif p != q and p.__class__ is tuple and not self.union(p, q):
                        return False
                    elif p.__class__ is int and p != q:
                        return False
            elif x.op == "v" and y.op == "v" and x.w <= 64 and not (x.w == 64 and (decl(x) or decl(y))):
                for p, q in zip(bits(x), bits(y)):
                    if p != q and not self.union(p, q):
                        return False
            rx, ry = self.urange(x), self.urange(y)
            lo, hi = max(rx[0], ry[0]), min(rx[1], ry[1])
            if lo > hi or not self._setrng(x, lo, hi) or not self._setrng(y, lo, hi):
                return False
            c, d = self.diff(x, y)
            if d and len(d) > 1:
                return self.addlin(c, d) and self.addlin(-c, {a: -k for a, k in d.items()})
            if len(d) == 1:
                ((t, k),) = d.items()
                if c % k:
                    return False
                return self._setrng(t, -c // k, -c // k)
            return c == 0
        # Not equal: cut the ends of the intervals
        if (x.op == "c" or y.op == "c") and x.w <= 64:
            unk = None
            diff = False
            for p, q in zip(bits(x), bits(y)):
                p1, q1 = self.bval(p), self.bval(q)
                if p1 is None or q1 is None:
                    if unk is not None:
                        unk = False
                        break
                    unk = (p, q1) if p1 is None else (q, p1)
                elif p1 != q1:
                    diff = True
                    break
            if not diff:
                if unk is None:
                    return False
                if unk and unk[1] is not None:
                    b, k = unk
                    return self._setbit(b[0], b[1], (1 - k) ^ b[2])
        for a, b in ((x, y), (y, x)):
            if b.op == "c" and a.op != "c":
                lo, hi = self.urange(a)
                if lo == b.a or hi == b.a:
                    if a.op == "lin":
                        # Also for the sum itself
                        c, d = self.math(a)
                        if d and not (len(d) == 1 and a in d):
                            if lo == b.a:
                                if not self.addlin(c - lo - 1, d):
                                    return False
                            elif not self.addlin(hi - 1 - c, {x: -k for x, k in d.items()}):
                                return False
                    return self._setrng(a, lo + 1, hi) if lo == b.a else self._setrng(a, lo, hi - 1)
        # a <= b and a != b
        c, d = self.diff(y, x)
        if d:
            if self.entails(c, d):
                return self.addlin(c - 1, d)
            nd = {a: -k for a, k in d.items()}
            if self.entails(-c, nd):
                return self.addlin(-c - 1, nd)
        return True

    def norm(self, t):
        """Replace what is known by constants."""
        memo = self.cache.setdefault("norm", {})
        return map_term(t, self._norm1, memo)

    def _norm1(self, t):
        if t.op == "c":
            return t
        lo, hi = self.urange(t)
        if lo == hi:
            return C(t.w, lo)
        if t.op == "v":
            if any((t, i) in self.bitk for i in range(t.w)) or (hi >> (t.w - 1)) == 0 and t.w == 8:
                bb = []
                ch = False
                for i in range(t.w):
                    k = self.bit(t, i)
                    if k is None:
                        bb.append((t, i, 0))
                    else:
                        bb.append(k)
                        ch = True
                if ch:
                    return mkbits(bb)
        if t.w == 1:
            d = self.decide(t)
            if d is not None:
                return TRUE if d else FALSE
        return None

    def same(self, a, b):
        """Are the terms equal under the facts?"""
        if a is b:
            return True
        if not isinstance(a, Term) or not isinstance(b, Term) or a.w != b.w:
            return False
        if a.w > 1 and (a.op == "lin" or b.op == "lin"):
            d = sub(a, b)
            if d.op == "c":
                return d.a == 0
        if self.norm(a) is self.norm(b):
            return True
        if a.w == 1:
            x, y = self.decide(a), self.decide(b)
            return x is not None and x == y
        if self._deq(a, b) is True:
            return True
        if a.w > 1 and (a.op in ("lin", "bits") and b.op in ("lin", "bits")):
            # Weighted sums of single bits
            d = {}
            c = self._weigh(a, 1, d, a.w) - self._weigh(b, 1, d, a.w)
            m = (1 << a.w) - 1
            e = {}
            self._weigh(a, 1, e, a.w)
            self._weigh(b, -1, e, a.w)
            return (c & m) == 0 and all(v & m == 0 for v in e.values())
        return False

    def _weigh(self, t, k, d, w):
        """t times k as const + sum of bits."""
        if t.op == "c":
            return t.a * k
        if t.op == "lin":
            c = t.a[0] * k
            for x, n in t.a[1]:
                c += self._weigh(x, n * k, d, w)
            return c
        c = 0
        if t.op == "bits":
            x = t.a[0]
            if x.__class__ is tuple and x[0].op == "lin" and all(y.__class__ is tuple and y[0] is x[0] and y[1] == i and not y[2] for i, y in enumerate(t.a)) and t.w == w:
                return self._weigh(x[0], k, d, w)
        for i, b in enumerate(bits(t)):
            v = self.bval(b)
            if v is not None:
                c += (v << i) * k
            else:
                q = (b[0], b[1])
                n = k << i
                if b[2]:
                    c += n
                    n = -n
                d[q] = d.get(q, 0) + n
        return c


def prev_match(x, free, val, w):
    """The greatest y <= x with y == val outside of the free bits."""
    if x & ~free & ((1 << w) - 1) == val:
        return x
    # y differs from x first at bit i, where x has 1 and y has 0
    best = None
    for i in range(w):
        if not (x >> i) & 1:
            continue
        b = 1 << i
        if not free & b and val & b:
            continue
        hi = x >> (i + 1)
        if hi & ~(free >> (i + 1)) & ((1 << w) - 1) != val >> (i + 1):
            continue
        y = (hi << (i + 1)) | ((free | val) & (b - 1))
        if best is None or y > best:
            best = y
    return best


def next_match(x, free, val, w):
    """The least y >= x with y == val outside of the free bits."""
    m = (1 << w) - 1
    if x & ~free & m == val:
        return x
    best = None
    for i in range(w):
        if (x >> i) & 1:
            continue
        b = 1 << i
        if not free & b and not val & b:
            continue
        hi = x >> (i + 1)
        if hi & ~(free >> (i + 1)) & (m >> (i + 1)) != val >> (i + 1):
            continue
        y = (hi << (i + 1)) | b | (val & (b - 1))
        if best is None or y < best:
            best = y
    return best


def dbm_infeasible(sys_, vars_):
    """Difference constraints: shortest paths. None when others matter."""
    idx = {v: i + 1 for i, v in enumerate(vars_)}
    edges = []
    other = False
    for c, d in sys_:
        it = [(x, k) for x, k in d.items() if k]
        if not it:
            if c < 0:
                return True
        elif len(it) == 1:
            x, k = it[0]
            i = idx[x]
            if k > 0:
                # x >= ceil(-c / k)  ->  0 - x <= c // k
                edges.append((i, 0, c // k))
            else:
                edges.append((0, i, c // -k))
        elif len(it) == 2 and it[0][1] == -it[1][1]:
            (x, k), (y, _) = it
            if k < 0:
                x, y, k = y, x, -k
            # y - x <= c / k
            edges.append((idx[x], idx[y], c // k))
        else:
            other = True
    n = len(idx) + 1
    dist = [0] * n
    for r in range(n):
        ch = False
        for u, v, w in edges:
            t = dist[u] + w
            if t < dist[v]:
                dist[v] = t
                ch = True
        if not ch:
            return None if other else False
    return True


def fm_infeasible(sys_, vars_):
    """No integer point: Fourier-Motzkin projection of all variables."""
    from math import gcd

    def normc(c, d):
        g = 0
        for k in d.values():
            g = gcd(g, k)
        if g > 1:
            return c // g, {x: k // g for x, k in d.items()}
        return c, d

    cur = {}

    def addc(store, c, d):
        d = {x: k for x, k in d.items() if k}
        if not d:
            return c < 0
        c, d = normc(c, d)
        key = tuple(sorted((x.id, k) for x, k in d.items()))
        o = store.get(key)
        if o is None or c < o[0]:
            store[key] = (c, d)
        return False

    for c, d in sys_:
        if addc(cur, c, d):
            return True
    left = set(vars_)
    while left:
        # Cheapest variable
        best = None
        for v in left:
            p = n = 0
            for c, d in cur.values():
                k = d.get(v, 0)
                if k > 0:
                    p += 1
                elif k < 0:
                    n += 1
            cost = p * n - p - n
            if best is None or cost < best[0]:
                best = (cost, v)
        v = best[1]
        left.discard(v)
        pos, neg_, nxt = [], [], {}
        for c, d in cur.values():
            k = d.get(v, 0)
            if k > 0:
                pos.append((c, d, k))
            elif k < 0:
                neg_.append((c, d, -k))
            else:
                if addc(nxt, c, d):
                    return True
        if len(pos) * len(neg_) > 300:
            continue_ok = False
            # Too many: drop the variable's constraints (sound: weaker)
            cur = nxt
            continue
        for c1, d1, k1 in pos:
            for c2, d2, k2 in neg_:
                d = {}
                for x, k in d1.items():
                    if x is not v:
                        d[x] = d.get(x, 0) + k * k2
                for x, k in d2.items():
                    if x is not v:
                        d[x] = d.get(x, 0) + k * k1
                if addc(nxt, c1 * k2 + c2 * k1, d):
                    return True
        if len(nxt) > 150:
            items = sorted(nxt.items(), key=lambda kv: len(kv[1][1]))[:150]
            nxt = dict(items)
        cur = nxt
    return False
