"""Abstract values."""
from typing import NamedTuple, Any
from terms import Term, C, V, add, sub, bits, mkbits, trunc, lshr, show


class Agg(NamedTuple):
    """Structure, tuple, closure or enum variant."""

    ty: Any
    v: int
    f: tuple

    def __repr__(self):
        n = self.ty.d["variants"][self.v]["name"] if self.ty is not None and self.ty.k == "adt" and self.v < len(self.ty.d["variants"]) else (
            self.ty.s if self.ty is not None else "")
        return f"{n}({', '.join(map(repr, self.f))})"


class Lazy(NamedTuple):
    """Value nothing is known of yet."""

    ty: Any
    name: tuple
    kind: str = "lazy"

    def __repr__(self):
        return f"?{'.'.join(map(str, self.name))}"


class Ref(NamedTuple):
    cell: Any
    path: tuple

    def __repr__(self):
        return f"&{_cell(self.cell)}{_path(self.path)}"


class Fat(NamedTuple):
    """Slice or string reference."""

    cell: Any
    path: tuple
    off: Any
    len: Any

    def __repr__(self):
        return f"&{_cell(self.cell)}{_path(self.path)}[{self.off};{self.len}]"


class Seq(NamedTuple):
    """Contents of an array, a vector or a string."""

    p: tuple

    def __repr__(self):
        return "[" + " ".join(map(repr, self.p)) + "]"


class B(NamedTuple):
    """One element."""

    v: Any

    def __repr__(self):
        return repr(self.v)


class S(NamedTuple):
    """Part of a named region."""

    region: tuple
    off: Any
    len: Any
    ety: Any

    def __repr__(self):
        return f"<{'.'.join(map(str, self.region))}:{self.off}+{self.len}>"


class Z(NamedTuple):
    """Repeated element."""

    val: Any
    len: Any
    kind: str = "rep"
    x: Any = None
    y: Any = None

    def __repr__(self):
        return f"{self.val!r}*{self.len}"


class VecV(NamedTuple):
    s: Seq

    def __repr__(self):
        return f"vec{self.s!r}"


class Nat(NamedTuple):
    """Object of a library the analysis models by itself."""

    kind: str
    a: tuple
    x: Any = None

    def __repr__(self):
        return f"{self.kind}{self.a!r}"


class FnV(NamedTuple):
    f: Any
    k: str = "fnv"

    def __repr__(self):
        return "fn"


def _cell(c):
    if isinstance(c, tuple) and c and c[0] == "f":
        return f"_{c[2]}#{c[1]}"
    return str(c) if not isinstance(c, tuple) else "'" + ".".join(map(str, c[1:]))


def _path(p):
    return "".join(f".{x}" if not isinstance(x, tuple) else f"[{x[1]}]" for x in p)


UNIT = Agg(None, 0, ())


def plen(p):
    """Length of a piece."""
    if p.__class__ is B:
        return ONE
    return p.len


ONE = C(64, 1)
ZERO = C(64, 0)


def seq_len(s):
    n = 0
    r = ZERO
    for p in s.p:
        if p.__class__ is B:
            n += 1
        else:
            r = add(r, p.len)
    return add(r, C(64, n))


def mkseq(pieces):
    """Normal form: no empty pieces, neighbours of one region are merged."""
    out = []
    for p in pieces:
        c = p.__class__
        if c is not B and p.len.op == "c":
            if p.len.a == 0:
                continue
            if c is Z and p.len.a <= 64:
                out.extend([B(p.val)] * p.len.a)
                continue
        if c is S and out and out[-1].__class__ is S and out[-1].region == p.region:
            q = out[-1]
            if add(q.off, q.len) is p.off:
                out[-1] = S(p.region, q.off, add(q.len, p.len), p.ety)
                continue
        if c is B and isinstance(p.v, Term):
            r = _as_region(p.v)
            if r is not None:
                reg, idx = r
                if out and out[-1].__class__ is S and out[-1].region == reg and add(out[-1].off, out[-1].len) is idx:
                    q = out[-1]
                    out[-1] = S(reg, q.off, add(q.len, ONE), None)
                    continue
        if c is S and p.len.op == "c" and p.len.a == 1 and p.ety is None:
            b = V(8, ("byte", p.region, p.off))
            p = B(b)
            c = B
            if out and out[-1].__class__ is S and out[-1].region == _as_region(b)[0] and add(out[-1].off, out[-1].len) is _as_region(b)[1]:
                q = out[-1]
                out[-1] = S(q.region, q.off, add(q.len, ONE), None)
                continue
        if c is S and out and out[-1].__class__ is B and isinstance(out[-1].v, Term):
            r = _as_region(out[-1].v)
            if r is not None and r[0] == p.region and add(r[1], ONE) is p.off and p.ety is None:
                out[-1] = S(p.region, r[1], add(p.len, ONE), None)
                continue
        if c is B and out and out[-1].__class__ is B and isinstance(p.v, Term) and isinstance(out[-1].v, Term):
            r, q = _as_region(p.v), _as_region(out[-1].v)
            if r is not None and q is not None and r[0] == q[0] and add(q[1], ONE) is r[1]:
                out[-1] = S(r[0], q[1], C(64, 2), None)
                continue
        out.append(p)
    return Seq(tuple(out))


def _as_region(t):
    if t.op == "v" and isinstance(t.a, tuple) and t.a and t.a[0] == "byte":
        return t.a[1], t.a[2]
    return None


def int_bytes(t):
    """Bytes of an integer, little endian."""
    return [mkbits(bits(t)[i : i + 8]) for i in range(0, t.w, 8)]


def bytes_int(bs):
    r = []
    for b in bs:
        r.extend(bits(b))
    return mkbits(r)
