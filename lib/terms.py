"""Abstract values of integers: hash-consed terms in a normal form which keeps
linear structure (mod 2^w) and the provenance of every bit."""

_tab = {}
_n = [0]


class Term:
    __slots__ = ("op", "w", "a", "id", "_bits", "__weakref__")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def _mk(op, w, a):
    k = (op, w, a)
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op, t.w, t.a = op, w, a
        _n[0] += 1
        t.id = _n[0]
        t._bits = None
        _tab[k] = t
    return t


def C(w, v):
    return _mk("c", w, v & ((1 << w) - 1))


# Declared range of atoms: name -> (lo, hi)
_decl = {}


def V(w, name, lo=None, hi=None):
    t = _mk("v", w, name)
    if lo is not None or hi is not None:
        _decl[t] = (lo or 0, (1 << w) - 1 if hi is None else hi)
    return t


def decl(t):
    return _decl.get(t)


def is_c(t):
    return t.op == "c"


def cv(t):
    return t.a


def scv(t):
    """Constant as the signed number."""
    v = t.a
    return v - (1 << t.w) if v >> (t.w - 1) else v


TRUE = C(1, 1)
FALSE = C(1, 0)


def boolc(b):
    return TRUE if b else FALSE


# Bits. A bit is 0, 1 or (term, index, negated)
def bits(t):
    if t._bits is None:
        if t.op == "c":
            t._bits = tuple((t.a >> i) & 1 for i in range(t.w))
        elif t.op == "bits":
            t._bits = t.a
        else:
            t._bits = tuple((t, i, 0) for i in range(t.w))
    return t._bits


def mkbits(b):
    b = tuple(b)
    if all(x.__class__ is int for x in b):
        v = 0
        for i, x in enumerate(b):
            v |= x << i
        return C(len(b), v)
    x = b[0]
    if x.__class__ is tuple and x[1] == 0 and not x[2]:
        t = x[0]
        if t.w == len(b) and all(y.__class__ is tuple and y[0] is t and y[1] == i and not y[2] for i, y in enumerate(b)):
            return t
    # a bool is its own bit
    if len(b) == 1 and x.__class__ is tuple and x[2] and x[0].w == 1:
        return not_(x[0])
    return _mk("bits", len(b), b)


def zext_src(t):
    """If t is zext(u) return u."""
    if t.op != "bits":
        return None
    x = t.a[0]
    if x.__class__ is not tuple or x[1] != 0 or x[2]:
        return None
    u = x[0]
    n = u.w
    if n >= t.w:
        return None
    for i in range(n):
        y = t.a[i]
        if y.__class__ is not tuple or y[0] is not u or y[1] != i or y[2]:
            return None
    for i in range(n, t.w):
        if t.a[i] != 0:
            return None
    return u


def shift_src(t):
    """If t is u >> k (logical, maybe extended) return (u, k)."""
    if t.op != "bits":
        return None
    x = t.a[0]
    if x.__class__ is not tuple or x[2]:
        return None
    u, k = x[0], x[1]
    n = u.w - k
    if n > t.w:
        return None
    for i in range(n):
        y = t.a[i]
        if y.__class__ is not tuple or y[0] is not u or y[1] != i + k or y[2]:
            return None
    for i in range(n, t.w):
        if t.a[i] != 0:
            return None
    return u, k


def ashr_src(t):
    """If t is u >> k (arithmetic, same or bigger width) return (u, k)."""
    if t.op != "bits":
        return None
    x = t.a[0]
    if x.__class__ is not tuple or x[2]:
        return None
    u, k = x[0], x[1]
    n = u.w - k
    if n > t.w:
        return None
    for i in range(t.w):
        y = t.a[i]
        if y.__class__ is not tuple or y[0] is not u or y[1] != min(i + k, u.w - 1) or y[2]:
            return None
    return u, k


# Linear forms (mod 2^w): (const, {atom: coef})
def lin(t):
    if t.op == "c":
        return t.a, {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def mklin(w, c, d):
    m = (1 << w) - 1
    c &= m
    items = []
    for a, k in d.items():
        k &= m
        if k:
            items.append((a, k))
    if not items:
        return C(w, c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda x: x[0].id)
    return _mk("lin", w, (c, tuple(items)))


def _disjoint(a, b):
    for x, y in zip(bits(a), bits(b)):
        if x != 0 and y != 0:
            return False
    return True


def add(a, b):
    w = a.w
    if a.op == "c" and a.a == 0:
        return b
    if b.op == "c" and b.a == 0:
        return a
    if (a.op == "bits" or b.op == "bits") and a.op != "lin" and b.op != "lin" and _disjoint(a, b):
        return mkbits(y if x == 0 else x for x, y in zip(bits(a), bits(b)))
    c1, d1 = lin(a)
    c2, d2 = lin(b)
    for k, v in d2.items():
        d1[k] = d1.get(k, 0) + v
    return mklin(w, c1 + c2, d1)


def neg(a):
    c, d = lin(a)
    return mklin(a.w, -c, {k: -v for k, v in d.items()})


def sub(a, b):
    if a is b:
        return C(a.w, 0)
    if b.op == "c" and b.a == 0:
        return a
    c1, d1 = lin(a)
    c2, d2 = lin(b)
    for k, v in d2.items():
        d1[k] = d1.get(k, 0) - v
    return mklin(a.w, c1 - c2, d1)


def mulc(a, k):
    c, d = lin(a)
    return mklin(a.w, c * k, {x: v * k for x, v in d.items()})


def mul(a, b):
    if a.op == "c":
        a, b = b, a
    if b.op == "c":
        v = b.a
        if v and v & (v - 1) == 0 and a.op == "bits":
            return shl(a, v.bit_length() - 1)
        return mulc(a, v)
    return op("mul", a.w, *sorted((a, b), key=lambda x: x.id))


def op(name, w, *args):
    return _mk("op", w, (name,) + args)


def is_op(t, name):
    return t.op == "op" and t.a[0] == name


def shl(a, k):
    if k == 0:
        return a
    if a.op == "lin":
        return mulc(a, 1 << k)
    return mkbits((0,) * k + bits(a)[: a.w - k])


def lshr(a, k):
    if k == 0:
        return a
    return mkbits(bits(a)[k:] + (0,) * k)


def ashr(a, k):
    if k == 0:
        return a
    b = bits(a)
    return mkbits(b[k:] + (b[-1],) * k)


def zext(a, w):
    if w <= a.w:
        return mkbits(bits(a)[:w])
    return mkbits(bits(a) + (0,) * (w - a.w))


def sext(a, w):
    if w <= a.w:
        return mkbits(bits(a)[:w])
    b = bits(a)
    return mkbits(b + (b[-1],) * (w - a.w))


def trunc(a, w):
    return mkbits(bits(a)[:w])


def _band(x, y):
    if x == 0 or y == 0:
        return 0
    if x == 1:
        return y
    if y == 1:
        return x
    if x == y:
        return x
    if x[0] is y[0] and x[1] == y[1]:
        return 0
    return None


def _bor(x, y):
    if x == 1 or y == 1:
        return 1
    if x == 0:
        return y
    if y == 0:
        return x
    if x == y:
        return x
    if x[0] is y[0] and x[1] == y[1]:
        return 1
    return None


def _bnot(x):
    if x.__class__ is int:
        return 1 - x
    return (x[0], x[1], 1 - x[2])


def _bxor(x, y):
    if x.__class__ is int:
        return _bnot(y) if x else y
    if y.__class__ is int:
        return _bnot(x) if y else x
    if x[0] is y[0] and x[1] == y[1]:
        return 0 if x[2] == y[2] else 1
    return None


def _bitwise(name, f, a, b):
    r = []
    for x, y in zip(bits(a), bits(b)):
        v = f(x, y)
        if v is None:
            return op(name, a.w, *sorted((a, b), key=lambda x: x.id))
        r.append(v)
    return mkbits(r)


def and_(a, b):
    return _bitwise("and", _band, a, b)


def or_(a, b):
    return _bitwise("or", _bor, a, b)


def xor(a, b):
    return _bitwise("xor", _bxor, a, b)


def not_(a):
    if a.w == 1:
        if a.op == "c":
            return C(1, 1 - a.a)
        if is_op(a, "not"):
            return a.a[1]
        if a.op == "bits":
            x = a.a[0]
            return mkbits((_bnot(x),))
        return op("not", 1, a)
    return mkbits(_bnot(x) for x in bits(a))


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "c" and b.op == "c":
        return FALSE
    if a.w == 1:
        if a.op == "c":
            a, b = b, a
        if b.op == "c":
            return a if b.a else not_(a)
    # Known high bits on both sides
    if (a.op == "bits" and b.op in ("bits", "c")) or (b.op == "bits" and a.op == "c"):
        x, y = bits(a), bits(b)
        n = len(x)
        for i in range(n - 1, -1, -1):
            if x[i].__class__ is int and y[i].__class__ is int:
                if x[i] != y[i]:
                    return FALSE
            else:
                break
        else:
            return TRUE
        for i in range(n):
            if x[i].__class__ is int and y[i].__class__ is int and x[i] != y[i]:
                return FALSE
        if i < n:
            k = n
            while x[k - 1].__class__ is int and y[k - 1].__class__ is int:
                k -= 1
            if k < n:
                return eq(mkbits(x[:k]), mkbits(y[:k]))
    # Constants go last
    if a.op == "c" or (b.op != "c" and b.id < a.id):
        a, b = b, a
    return op("eq", 1, a, b)


def ne(a, b):
    return not_(eq(a, b))


def ult(a, b):
    if a is b:
        return FALSE
    if a.op == "c" and b.op == "c":
        return boolc(a.a < b.a)
    return op("ult", 1, a, b)


def ule(a, b):
    return not_(ult(b, a))


def slt(a, b):
    if a is b:
        return FALSE
    if a.op == "c" and b.op == "c":
        return boolc(scv(a) < scv(b))
    return op("slt", 1, a, b)


def sle(a, b):
    return not_(slt(b, a))


def udiv(a, b):
    if b.op == "c":
        if b.a == 0:
            return op("udiv", a.w, a, b)
        if a.op == "c":
            return C(a.w, a.a // b.a)
        if b.a & (b.a - 1) == 0:
            return lshr(a, b.a.bit_length() - 1)
    return op("udiv", a.w, a, b)


def urem(a, b):
    if b.op == "c":
        if b.a == 0:
            return op("urem", a.w, a, b)
        if a.op == "c":
            return C(a.w, a.a % b.a)
        if b.a & (b.a - 1) == 0:
            k = b.a.bit_length() - 1
            return mkbits(bits(a)[:k] + (0,) * (a.w - k)) if k else C(a.w, 0)
    return op("urem", a.w, a, b)


def sdiv(a, b):
    if a.op == "c" and b.op == "c" and b.a:
        x, y = scv(a), scv(b)
        q = abs(x) // abs(y)
        return C(a.w, q if (x < 0) == (y < 0) else -q)
    return op("sdiv", a.w, a, b)


def srem(a, b):
    if a.op == "c" and b.op == "c" and b.a:
        x, y = scv(a), scv(b)
        r = abs(x) % abs(y)
        return C(a.w, -r if x < 0 else r)
    return op("srem", a.w, a, b)


def ite(c, a, b):
    if c.op == "c":
        return a if c.a else b
    if a is b:
        return a
    if a.w == 1 and a.op == "c" and b.op == "c":
        return c if a.a else not_(c)
    return op("ite", a.w, c, a, b)


def atoms(t, acc=None):
    """Set of the atoms ('v' terms) of the term."""
    if acc is None:
        acc = set()
    if t.op == "v":
        acc.add(t)
        for x in _name_terms(t.a):
            atoms(x, acc)
    elif t.op == "lin":
        for a, _ in t.a[1]:
            atoms(a, acc)
    elif t.op == "bits":
        seen = set()
        for x in t.a:
            if x.__class__ is tuple and x[0] not in seen:
                seen.add(x[0])
                atoms(x[0], acc)
    elif t.op == "op":
        for a in t.a[1:]:
            if isinstance(a, Term):
                atoms(a, acc)
    return acc


def _name_terms(n):
    if isinstance(n, Term):
        yield n
    elif isinstance(n, tuple):
        for x in n:
            yield from _name_terms(x)


def tainted(t):
    """Depends on a result of something the analysis has no model of."""
    return any(isinstance(a.a, tuple) and a.a and a.a[0] == "unk" for a in atoms(t))


def map_term(t, f, memo=None):
    """Rebuild the term, replacing sub-terms by f (None - keep)."""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    r = f(t)
    if r is None:
        if t.op in ("c", "v"):
            r = t
        elif t.op == "lin":
            c, items = t.a
            r = C(t.w, c)
            for a, k in items:
                r = add(r, mulc(map_term(a, f, memo), k))
        elif t.op == "bits":
            o = []
            for x in t.a:
                if x.__class__ is tuple:
                    n = map_term(x[0], f, memo)
                    y = bits(n)[x[1]]
                    o.append(_bnot(y) if x[2] else y)
                else:
                    o.append(x)
            r = mkbits(o)
        else:
            n = t.a[0]
            args = [map_term(x, f, memo) if isinstance(x, Term) else x for x in t.a[1:]]
            r = rebuild(n, t.w, args)
    memo[t] = r
    return r


_reb = {
    "eq": eq, "ult": ult, "slt": slt, "and": and_, "or": or_, "xor": xor, "not": not_, "udiv": udiv, "urem": urem,
    "sdiv": sdiv, "srem": srem, "mul": mul, "ite": ite,
}


def rebuild(n, w, args):
    f = _reb.get(n)
    if f is not None:
        return f(*args)
    return op(n, w, *args)


def show(t, depth=6):
    if depth == 0:
        return "…"
    if t.op == "c":
        return str(t.a) if t.a < 1000 or t.w < 60 else (str(scv(t)) if scv(t) > -1000 and scv(t) < 0 else hex(t.a))
    if t.op == "v":
        return show_name(t.a)
    if t.op == "lin":
        c, items = t.a
        s = []
        for a, k in items:
            if k >> (t.w - 1):
                k -= 1 << t.w
            s.append(("" if k == 1 else "-" if k == -1 else f"{k}*") + show(a, depth - 1))
        if c:
            if c >> (t.w - 1):
                c -= 1 << t.w
            s.append(str(c))
        return "(" + " + ".join(s).replace("+ -", "- ") + ")"
    if t.op == "bits":
        u = zext_src(t)
        if u is not None:
            return show(u, depth - 1)
        # Group runs
        out = []
        i = t.w - 1
        while i >= 0:
            x = t.a[i]
            if x.__class__ is int:
                j = i
                s = ""
                while j >= 0 and t.a[j].__class__ is int:
                    s += str(t.a[j])
                    j -= 1
                if len(s) > 8 and len(set(s)) == 1:
                    s = f"{s[0]}×{len(s)}"
                out.append(s)
            else:
                j = i
                while j - 1 >= 0 and t.a[j - 1].__class__ is tuple and t.a[j - 1][0] is x[0] and t.a[j - 1][1] == x[1] - (i - j) - 1 and t.a[j - 1][2] == x[2]:
                    j -= 1
                out.append(("~" if x[2] else "") + f"{show(x[0], depth - 1)}[{x[1]}:{t.a[j][1]}]")
                j -= 1
            i = j
        return "{" + " ".join(out) + "}"
    return f"{t.a[0]}({', '.join(show(x, depth - 1) if isinstance(x, Term) else str(x) for x in t.a[1:])})"


def show_name(n):
    if isinstance(n, tuple):
        if n and n[0] == "byte":
            return f"{show_name(n[1])}[{show_name(n[2])}]"
        return ".".join(show_name(x) for x in n)
    if isinstance(n, Term):
        return show(n, 3)
    return str(n)
