"""Models of the standard library and of the foreign crates.

Each handler gets the interpreter, the state and the call and returns the abstract result:
a value, a list of (state, value), or NotImplemented to fall back to the body."""
import re

import terms as T
from terms import Term, C, V, TRUE, FALSE, boolc
from state import NeedFork
from vals import Agg, Lazy, Ref, Fat, Seq, B, S, Z, VecV, Nat, FnV, UNIT, ONE, ZERO, seq_len, mkseq, plen, int_bytes

NATIVES = []


def native(*rxs):
    def deco(f):
        for r in rxs:
            NATIVES.append((re.compile(r), f))
        return f

    return deco


def _exc():
    import interp

    return interp


# ------------------------------------------------------------------- helpers
def agg(I, ty, var, *f):
    return Agg(ty, I.vidx(ty, var), tuple(f))


def ok(I, ty, v):
    return agg(I, ty, "Ok", v)


def err(I, ty, v):
    return agg(I, ty, "Err", v)


def some(I, ty, v):
    return agg(I, ty, "Some", v)


def none(I, ty):
    return agg(I, ty, "None")


def res_ty(I, ty, var):
    """Type of the payload of the variant."""
    i = I.vidx(ty, var)
    return I.T[ty.d["variants"][i]["fields"][0][1]]


def cond(st, c):
    d = st.decide(c)
    if d is None:
        raise NeedFork(c)
    return d


def load(I, st, v):
    """Value behind a reference."""
    if v.__class__ is Ref:
        return I.force(st, v.cell, v.path, I.get(st, v.cell, v.path))
    if v.__class__ is Lazy:
        return load(I, st, I.expand(st, v)) if v.ty.k in ("ref", "ptr") else I.expand(st, v)
    return v


def seq_of(I, st, v):
    """Elements of anything which looks like a slice."""
    for _ in range(8):
        c = v.__class__
        if c is Fat:
            return I.slice_get(st, v)
        if c is Seq:
            return v
        if c is VecV:
            return v.s
        if c is Lazy:
            v = I.expand(st, v)
        elif c is Ref:
            v = load(I, st, v)
        elif c is Agg and v.ty is not None and v.ty.k == "adt" and v.ty.d["name"] == "std::borrow::Cow":
            v = v.f[0]
        elif c is Nat and v.kind in ("digest", "pystr", "pybytes") and v.a and v.a[0].__class__ is Seq:
            return v.a[0]
        else:
            break
    raise _exc().Unsupported(f"sequence of {str(v)[:80]}")


def as_slice(I, st, v):
    """Slice reference to anything which looks like a slice."""
    for _ in range(8):
        c = v.__class__
        if c is Fat:
            return v
        if c is Ref:
            x = load(I, st, v)
            if x.__class__ is VecV:
                return Fat(v.cell, v.path, ZERO, seq_len(x.s))
            if x.__class__ is Seq:
                return Fat(v.cell, v.path, ZERO, seq_len(x))
            v = x
        elif c is Lazy:
            v = I.expand(st, v)
        else:
            break
    s = seq_of(I, st, v)
    return new_slice(I, st, s)


def new_slice(I, st, s):
    cell = ("tmp", next(I.ids))
    st.cells[cell] = s
    return Fat(cell, (), ZERO, seq_len(s))


def new_ref(I, st, v):
    cell = ("tmp", next(I.ids))
    st.cells[cell] = v
    return Ref(cell, ())


def unknown(I, st, c, tag=None):
    n = next(I.unk)
    return I.fresh(st, c.dty, ("unk", tag or c.rname, n))


def flat_octets(s):
    """The octets of the rope of known size."""
    out = []
    for p in s.p:
        if p.__class__ is B:
            if not isinstance(p.v, Term) or p.v.w != 8:
                return None
            out.append(p.v)
        elif p.len.op != "c" or p.len.a > 8192:
            return None
        elif p.__class__ is Z:
            out += [p.val] * p.len.a
        elif p.ety is None:
            out += [V(8, ("byte", p.region, T.add(p.off, C(64, i)))) for i in range(p.len.a)]
        else:
            return None
    return out


def seq_eq(I, st, a, b):
    """Equality of two sequences as a boolean term."""
    if a == b:
        return TRUE
    na, nb = seq_len(a), seq_len(b)
    if not cond(st, T.eq(na, nb)):
        return FALSE
    if na.op != "c" and nb.op == "c":
        na = nb
    if na.op == "c" and na.a <= 64:
        r = TRUE
        for i in range(na.a):
            k = C(64, i)
            x, y = I.elem(st, a, k), I.elem(st, b, k)
            if isinstance(x, Term) and isinstance(y, Term):
                r = T.and_(r, T.eq(x, y))
            else:
                e = val_eq(I, st, x, y)
                r = T.and_(r, e)
        return r
    x, y = flat_octets(a), flat_octets(b)
    if x is not None and y is not None and len(x) == len(y):
        d = [(p, q) for p, q in zip(x, y) if p is not q]
        if len(d) <= 128:
            r = TRUE
            for p, q in d:
                r = T.and_(r, T.eq(p, q))
            return r
    k = sorted([a.p, b.p], key=repr)
    return V(1, ("seqeq", tuple(k[0]), tuple(k[1])))


def val_eq(I, st, x, y):
    x, y = load(I, st, x) if x.__class__ in (Ref, Lazy) else x, load(I, st, y) if y.__class__ in (Ref, Lazy) else y
    if isinstance(x, Term) and isinstance(y, Term):
        return T.eq(x, y)
    if x.__class__ in (Seq, VecV, Fat) or y.__class__ in (Seq, VecV, Fat):
        return seq_eq(I, st, seq_of(I, st, x), seq_of(I, st, y))
    if x.__class__ is Agg and y.__class__ is Agg and x.ty is y.ty:
        if x.v != y.v:
            return FALSE
        r = TRUE
        for a, b in zip(x.f, y.f):
            r = T.and_(r, val_eq(I, st, a, b))
        return r
    if x == y:
        return TRUE
    raise _exc().Unsupported("equality")


def text(I, st, s):
    """Rope of a constant text."""
    return mkseq([B(C(8, b)) for b in s.encode()])


def const_bytes(s):
    """bytes of the sequence if all are known."""
    out = bytearray()
    for p in s.p:
        if p.__class__ is not B or not isinstance(p.v, Term) or p.v.op != "c":
            return None
        out.append(p.v.a)
    return bytes(out)


def dec_digits(w):
    return len(str((1 << w) - 1))


def dec_rope(st, t, signed=False):
    t = st.norm(t)
    if t.op == "c":
        v = T.scv(t) if signed else t.a
        return [B(C(8, x)) for x in str(v).encode()]
    n = V(64, ("declen", t, signed), 1, dec_digits(t.w) + (1 if signed else 0))
    return [S(("dec", t, signed), ZERO, n, None)]


def panic(I, st, kind, msg):
    """Report and stop the partition."""
    fn = I.stack[-1]
    I.panic(st, kind, msg, fn, -1, getattr(I, "cur_ln", None))
    return []


# ------------------------------------------------------------------- no-ops
@native(r"::precondition_check$", r"^core::ub_checks::", r"^std::intrinsics::(assert_inhabited|assert_zero_valid|assert_mem_uninitialized_valid|assume|cold_path)$")
def nop(I, st, c):
    return UNIT


@native(r"^std::hint::must_use$", r"^std::convert::identity$", r"^std::hint::black_box$")
def ident(I, st, c):
    return c.args[0]


# ------------------------------------------------------------------- panics
@native(r"^core::panicking::", r"^core::slice::index::slice_.*fail", r"len_mismatch_fail", r"slice_error_fail", r"unwrap_failed", r"expect_failed",
        r"from_ascii_bytes_radix_panic", r"^alloc::raw_vec::handle_error$", r"^std::alloc::handle_alloc_error$", r"^core::cell::panic", r"^std::process::abort",
        r"^std::rt::begin_panic", r"^std::intrinsics::abort$", r"^core::option::", r"^alloc::raw_vec::capacity_overflow", r"copy_from_slice_impl::",
        r"^std::vec::Vec::<T, A>::(remove|insert|swap_remove|split_off)::assert_failed$")
def panics(I, st, c):
    I.cur_ln = c.ln
    return panic(I, st, "panic", c.rname)


# --------------------------------------------------------------- intrinsics
@native(r"^std::intrinsics::size_of_val$", r"^std::intrinsics::align_of_val$")
def size_of_val(I, st, c):
    return V(64, ("sizeof", c.name), 1, 1 << 20)


@native(r"^std::intrinsics::arith_offset$", r"^std::intrinsics::offset$")
def arith_offset(I, st, c):
    return I.offset(st, c.args[0], c.args[1])


@native(r"^std::intrinsics::bswap$")
def bswap(I, st, c):
    a = c.args[0]
    bs = [T.bits(a)[i : i + 8] for i in range(0, a.w, 8)]
    r = []
    for b in reversed(bs):
        r.extend(b)
    return T.mkbits(r)


@native(r"^std::intrinsics::(ctpop|ctlz|cttz|ctlz_nonzero|bitreverse)$")
def ctpop(I, st, c):
    a = c.args[0]
    n = c.rname.split("::")[-1]
    k = st.norm(a)
    if k.op == "c":
        if n == "ctpop":
            return C(32, bin(k.a).count("1"))
        if n.startswith("ctlz"):
            return C(32, k.w - k.a.bit_length())
        if n == "cttz":
            return C(32, (k.a & -k.a).bit_length() - 1 if k.a else k.w)
    if n == "ctlz" or n == "ctlz_nonzero":
        lo, hi = st.urange(a)
        if lo.bit_length() == hi.bit_length():
            return C(32, a.w - lo.bit_length())
        raise NeedFork(T.ult(a, C(a.w, 1 << (hi.bit_length() - 1))))
    return V(c.dty.d["bits"], (n, a), 0, a.w)


@native(r"^std::intrinsics::compare_bytes$")
def compare_bytes(I, st, c):
    n = c.args[2]
    a, b = I.range_of(st, c.args[0], n), I.range_of(st, c.args[1], n)
    if a is None or b is None:
        if cond(st, T.eq(n, ZERO)):
            return C(32, 0)
        return NotImplemented
    x, y = I.slice_get(st, a), I.slice_get(st, b)
    e = seq_eq(I, st, x, y)
    if cond(st, e):
        return C(32, 0)
    # The sign is the order of the contents
    t = V(32, ("seqcmp", x.p, y.p))
    st.assume(T.eq(t, C(32, 0)), False)
    return t


@native(r"^std::intrinsics::ptr_offset_from(_unsigned)?$")
def ptr_offset_from(I, st, c):
    a, b = c.args[:2]
    if a.__class__ is Ref and b.__class__ is Ref and a.cell == b.cell:
        def pos(r):
            if r.path and r.path[-1].__class__ is tuple and r.path[-1][0] == "e":
                return r.path[:-1], r.path[-1][1]
            return r.path, ZERO

        (pa, x), (pb, y) = pos(a), pos(b)
        if pa == pb:
            return T.sub(x, y)
    raise _exc().Unsupported("pointer difference")


@native(r"^std::intrinsics::saturating_(sub|add)$")
def saturating(I, st, c):
    a, b = c.args
    sub = c.rname.endswith("sub")
    if c.dty.k == "int":
        lo, hi = -(1 << (a.w - 1)), (1 << (a.w - 1)) - 1
        x, y = st.srange(a), st.srange(b)
        r = (x[0] - y[1], x[1] - y[0]) if sub else (x[0] + y[0], x[1] + y[1])
        if r[0] >= lo and r[1] <= hi:
            return T.sub(a, b) if sub else T.add(a, b)
        return T.op("sat_" + ("sub" if sub else "add") + "s", a.w, a, b)
    if sub:
        return T.sub(a, b) if cond(st, T.ule(b, a)) else C(a.w, 0)
    s = T.add(a, b)
    m = C(a.w, (1 << a.w) - 1)
    return s if cond(st, T.ule(a, T.sub(m, b))) else m


@native(r"^std::intrinsics::write_bytes$")
def write_bytes(I, st, c):
    p, v, n = c.args
    f = I.range_of(st, p, n)
    if f is None:
        if cond(st, T.eq(n, ZERO)):
            return UNIT
        raise _exc().Unsupported("write_bytes")
    I.bounds(st, f, "write")
    I.slice_set(st, f, [Z(v, n)])
    return UNIT


@native(r"^std::intrinsics::(volatile_load|unaligned_volatile_load|read_via_copy)$")
def read_via_copy(I, st, c):
    return load(I, st, c.args[0])


@native(r"^std::ptr::(copy_nonoverlapping|copy)$", r"^std::intrinsics::(copy_nonoverlapping|copy)$")
def ptr_copy(I, st, c):
    I.copy(st, *c.args)
    return UNIT


@native(r"^std::intrinsics::(wrapping|unchecked)_(add|sub|mul)$")
def wrapping(I, st, c):
    a, b = c.args
    return {"add": T.add, "sub": T.sub, "mul": T.mul}[c.rname.rsplit("_", 1)[1]](a, b)


@native(r"^std::intrinsics::rotate_(left|right)$")
def rotate(I, st, c):
    a, n = c.args
    n = st.norm(n)
    if n.op != "c":
        return NotImplemented
    b = T.bits(a)
    k = n.a % a.w
    if c.rname.endswith("left"):
        k = a.w - k
    return T.mkbits(b[k:] + b[:k])


@native(r"^std::intrinsics::(add|sub|mul)_with_overflow$")
def with_overflow(I, st, c):
    a, b = c.args
    op = {"add": "Add", "sub": "Sub", "mul": "Mul"}[c.rname.rsplit("::", 1)[1].split("_")[0]]
    ty = c.aty[0]
    v = I.binop(st, op, a, b, ty, None)
    return Agg(c.dty, 0, (v, I.overflows(st, op, a, b, v, ty)))


# --------------------------------------------------------------------- float
@native(r"__powidf2$", r"powif64$", r"^std::f64::<impl f64>::powi$")
def powi(I, st, c):
    return T.op("powi", 64, c.args[0], c.args[1])


@native(r"^std::f64::<impl f64>::powf$", r"powf64$")
def powf(I, st, c):
    return T.op("powf", 64, c.args[0], c.args[1])


@native(r"^std::f64::<impl f64>::(floor|ceil|round|trunc|sqrt|abs|exp2|exp|ln|log2|log10)$", r"^core::f64::<impl f64>::(abs|floor|ceil)$")
def funary(I, st, c):
    return T.op("f" + c.rname.rsplit("::", 1)[1], 64, c.args[0])


@native(r"^core::f64::<impl f64>::(to_bits|from_bits)$")
def fbits(I, st, c):
    return c.args[0]


# ---------------------------------------------------------- slices and memory
@native(r"^std::slice::from_raw_parts(_mut)?$", r"^std::ptr::slice_from_raw_parts(_mut)?$")
def from_raw_parts(I, st, c):
    p, n = c.args
    f = I.range_of(st, p, n)
    if f is None:
        if p.__class__ is Ref:
            v = I.get(st, p.cell, p.path)
            if v.__class__ in (Seq, VecV):
                f = Fat(p.cell, p.path, ZERO, n)
        elif st.decide(T.eq(n, ZERO)):
            return new_slice(I, st, Seq(()))
    if f is None:
        raise _exc().Unsupported("from_raw_parts")
    I.bounds(st, f, "slice")
    return f


@native(r"^core::slice::memchr::memchr$")
def memchr(I, st, c):
    return unknown(I, st, c)


@native(r"^core::slice::cmp::<impl std::cmp::PartialEq<\[U\]> for \[T\]>::eq$", r"^std::vec::partial_eq::<impl .*>::eq$",
        r"^std::array::equality::<impl .*>::eq$", r"^core::array::equality::<impl .*>::eq$", r"^core::str::traits::<impl std::cmp::PartialEq for str>::eq$",
        r"^<std::string::String as std::cmp::PartialEq.*>::eq$", r"^std::string::<impl std::cmp::PartialEq.*>::eq$",
        r"^core::slice::cmp::<impl .*>::equal(_same_length)?$")
def slices_eq(I, st, c):
    try:
        return seq_eq(I, st, seq_of(I, st, c.args[0]), seq_of(I, st, c.args[1]))
    except _exc().Unsupported:
        return NotImplemented


@native(r"^core::slice::cmp::<impl std::cmp::PartialEq<\[U\]> for \[T\]>::ne$", r"^std::vec::partial_eq::<impl .*>::ne$",
        r"^std::array::equality::<impl .*>::ne$", r"^core::array::equality::<impl .*>::ne$", r"^core::str::traits::<impl std::cmp::PartialEq for str>::ne$",
        r"^<std::string::String as std::cmp::PartialEq.*>::ne$", r"^std::string::<impl std::cmp::PartialEq.*>::ne$")
def slices_ne(I, st, c):
    try:
        return T.not_(seq_eq(I, st, seq_of(I, st, c.args[0]), seq_of(I, st, c.args[1])))
    except _exc().Unsupported:
        return NotImplemented


@native(r"^core::slice::<impl \[T\]>::starts_with$")
def starts_with(I, st, c):
    try:
        a, b = seq_of(I, st, c.args[0]), seq_of(I, st, c.args[1])
    except _exc().Unsupported:
        return NotImplemented
    n, m = seq_len(a), seq_len(b)
    if not cond(st, T.ule(m, n)):
        return FALSE
    return seq_eq(I, st, I.sub(st, a, ZERO, m), b)


@native(r"^core::slice::<impl \[T\]>::(copy|clone)_from_slice$")
def copy_from_slice(I, st, c):
    a, b = as_slice(I, st, c.args[0]), as_slice(I, st, c.args[1])
    I.obligations += 1
    if not cond(st, T.eq(a.len, b.len)):
        I.cur_ln = c.ln
        return panic(I, st, "panic", "copy_from_slice of different lengths")
    I.slice_set(st, a, I.slice_get(st, b).p)
    return UNIT


@native(r"^core::slice::<impl \[T\]>::fill$", r"<\[T\] as .*SpecFill<T>>::spec_fill$")
def fill(I, st, c):
    a = as_slice(I, st, c.args[0])
    v = c.args[1]
    I.slice_set(st, a, [Z(v, a.len)])
    return UNIT


@native(r"^core::slice::<impl \[T\]>::reverse$")
def reverse(I, st, c):
    a = as_slice(I, st, c.args[0])
    s = I.slice_get(st, a)
    if all(p.__class__ is B for p in s.p):
        I.slice_set(st, a, list(reversed(s.p)))
    else:
        I.slice_set(st, a, [S(("reversed", s.p), ZERO, a.len, None)])
    return UNIT


@native(r"^std::slice::<impl \[T\]>::to_vec$", r"^std::slice::<impl \[T\]>::into_vec$", r"ConvertVec>::to_vec$", r"^std::slice::<impl std::borrow::ToOwned for \[T\]>::to_owned$",
        r"^std::str::<impl std::borrow::ToOwned for str>::to_owned$", r"^<std::string::String as std::convert::From<.*>>::from$",
        r"^<std::vec::Vec<T> as std::convert::From<&.*\[T.*\]?>>::from$", r"^<std::vec::Vec<u8> as std::convert::From<.*>>::from$", r"^std::string::String::into_bytes$",
        r"^std::str::<impl str>::(into_string|to_owned)$", r"^<std::vec::Vec<T.*> as std::clone::Clone>::clone$", r"^<std::string::String as std::clone::Clone>::clone$",
        r"^std::vec::<impl std::convert::From<.*> for std::vec::Vec<.*>>::from$", r"^<str as std::string::ToString>::to_string$", r"^<std::string::String as std::string::ToString>::to_string$",
        r"^std::slice::<impl \[T\]>::concat$")
def to_vec(I, st, c):
    if c.dty.k != "adt" or c.dty.d["name"] not in ("std::vec::Vec", "std::string::String"):
        return NotImplemented
    if c.rname.endswith("concat"):
        s = seq_of(I, st, c.args[0])
        out = []
        for p in s.p:
            if p.__class__ is not B:
                return NotImplemented
            out.extend(seq_of(I, st, p.v).p)
        return VecV(mkseq(out))
    return VecV(seq_of(I, st, c.args[0]))


@native(r"^std::vec::from_elem$")
def from_elem(I, st, c):
    return VecV(mkseq([Z(c.args[0], c.args[1])]))


@native(r"^std::vec::Vec::<.*>::(new|with_capacity|new_in|with_capacity_in)$", r"^std::string::String::(new|with_capacity)$", r"^<std::vec::Vec<T> as std::default::Default>::default$",
        r"^<std::string::String as std::default::Default>::default$")
def vec_new(I, st, c):
    return VecV(Seq(()))


@native(r"^std::vec::Vec::<.*>::(push|push_mut|push_within_capacity)$")
def vec_push(I, st, c):
    r, v = c.args
    x = load(I, st, r)
    I.set(st, r.cell, r.path, VecV(mkseq(x.s.p + (B(v),))))
    if c.rname.endswith("push_mut"):
        return Ref(r.cell, r.path + (("s",), ("e", T.sub(seq_len(load(I, st, r).s), ONE))))
    return UNIT


@native(r"^std::vec::Vec::<.*>::pop$")
def vec_pop(I, st, c):
    r = c.args[0]
    x = load(I, st, r)
    n = seq_len(x.s)
    if cond(st, T.eq(n, ZERO)):
        return none(I, c.dty)
    k = T.sub(n, ONE)
    v = I.elem(st, x.s, k)
    l, _ = I.split(st, x.s.p, k)
    I.set(st, r.cell, r.path, VecV(mkseq(l)))
    return some(I, c.dty, v)


@native(r"^std::vec::Vec::<.*>::(clear|truncate)$", r"^std::string::String::(clear|truncate)$")
def vec_clear(I, st, c):
    r = c.args[0]
    x = load(I, st, r)
    if c.rname.endswith("clear"):
        I.set(st, r.cell, r.path, VecV(Seq(())))
        return UNIT
    if not cond(st, T.ule(c.args[1], seq_len(x.s))):
        return UNIT
    l, _ = I.split(st, x.s.p, c.args[1])
    I.set(st, r.cell, r.path, VecV(mkseq(l)))
    return UNIT


@native(r"^std::(slice|str)::<impl \[T\]>::join$", r"Join<&str> for \[S\]>::join$", r"^std::slice::<impl \[T\]>::concat$", r"Concat<str> for \[S\]>::concat$")
def slice_join(I, st, c):
    """Texts of a sequence of known length."""
    s = seq_of(I, st, c.args[0])
    if not all(p.__class__ is B and not isinstance(p.v, Term) for p in s.p):
        return NotImplemented
    sep = seq_of(I, st, c.args[1]).p if len(c.args) > 1 else ()
    out = ()
    for i, p in enumerate(s.p):
        out += (sep if i else ()) + seq_of(I, st, p.v).p
    return VecV(mkseq(out))


@native(r"^std::vec::Vec::<.*>::resize$")
def vec_resize(I, st, c):
    r, n, v = c.args
    x = load(I, st, r)
    k = seq_len(x.s)
    if cond(st, T.ule(n, k)):
        l, _ = I.split(st, x.s.p, n)
        I.set(st, r.cell, r.path, VecV(mkseq(l)))
    else:
        I.set(st, r.cell, r.path, VecV(mkseq(x.s.p + (Z(v, T.sub(n, k)),))))
    return UNIT


@native(r"^std::vec::Vec::<.*>::(extend_from_slice|append_elements|spec_extend)$", r"^std::string::String::push_str$", r"^<std::string::String as std::fmt::Write>::write_str$",
        r"SpecExtend<&'a T, std::slice::Iter<'a, T>>>::spec_extend$", r"^std::vec::Vec::<.*>::append$")
def vec_extend(I, st, c):
    r, s = c.args
    x = load(I, st, r)
    if s.__class__ is Agg or x.__class__ is not VecV:
        return NotImplemented
    I.set(st, r.cell, r.path, VecV(mkseq(x.s.p + seq_of(I, st, s).p)))
    if c.rname.endswith("append"):
        I.set(st, s.cell, s.path, VecV(Seq(())))
    if c.dty.k == "adt":
        return ok(I, c.dty, UNIT)
    return UNIT


@native(r"^std::string::String::push$", r"^<std::string::String as std::fmt::Write>::write_char$")
def string_push(I, st, c):
    r, ch = c.args
    x = load(I, st, r)
    ch = st.norm(ch)
    if st.urange(ch)[1] < 128:
        I.set(st, r.cell, r.path, VecV(mkseq(x.s.p + (B(T.trunc(ch, 8)),))))
    else:
        n = V(64, ("charlen", ch), 1, 4)
        I.set(st, r.cell, r.path, VecV(mkseq(x.s.p + (S(("char", ch), ZERO, n, None),))))
    if c.dty.k == "adt":
        return ok(I, c.dty, UNIT)
    return UNIT


@native(r"^std::vec::Vec::<.*>::(reserve|reserve_exact|shrink_to_fit)$", r"^std::string::String::reserve$", r"^<std::vec::set_len_on_drop::SetLenOnDrop.*>::drop$")
def vec_reserve(I, st, c):
    return UNIT


@native(r"^std::vec::Vec::<.*>::len$", r"^std::string::String::len$")
def vec_len(I, st, c):
    return seq_len(load(I, st, c.args[0]).s)


@native(r"^std::vec::Vec::<.*>::is_empty$", r"^std::string::String::is_empty$")
def vec_is_empty(I, st, c):
    return T.eq(seq_len(load(I, st, c.args[0]).s), ZERO)


@native(r"^std::vec::Vec::<.*>::capacity$")
def vec_cap(I, st, c):
    return V(64, ("cap", next(I.ids)), 0, 1 << 40)


@native(r"^std::vec::Vec::<.*>::set_len$")
def vec_set_len(I, st, c):
    r, n = c.args
    x = load(I, st, r)
    if st.same(seq_len(x.s), n):
        return UNIT
    I.set(st, r.cell, r.path, I.set_len(st, x, n))
    return UNIT


@native(r"^<std::vec::Vec<.*> as std::ops::Deref(Mut)?>::deref(_mut)?$", r"^std::vec::Vec::<.*>::as_(mut_)?slice$", r"^<std::string::String as std::ops::Deref>::deref$",
        r"^std::string::String::(as_str|as_bytes|as_mut_str)$", r"^<std::string::String as std::convert::AsRef<.*>>::as_ref$", r"^<std::vec::Vec<.*> as std::convert::AsRef<.*>>::as_ref$",
        r"^std::slice::<impl std::borrow::Borrow<\[T\]> for std::vec::Vec<.*>>::borrow$", r"^<std::string::String as std::borrow::Borrow<str>>::borrow$")
def vec_slice(I, st, c):
    r = c.args[0]
    x = load(I, st, r)
    if x.__class__ is not VecV:
        return NotImplemented
    if c.dty.k == "ref" and I.pointee(c.dty).k == "adt":
        return r
    return Fat(r.cell, r.path + (("s",),), ZERO, seq_len(x.s))


@native(r"^std::vec::Vec::<.*>::as_(mut_)?ptr$", r"^std::string::String::as_(mut_)?ptr$")
def vec_ptr(I, st, c):
    r = c.args[0]
    load(I, st, r)
    return Ref(r.cell, r.path + (("s",), ("e", ZERO)))


def vec_range(I, st, c, r, i):
    """Part of the vector."""
    if i.__class__ is Lazy:
        i = I.expand(st, i)
    if i.__class__ is not Agg or i.ty.k != "adt":
        return NotImplemented
    nm = i.ty.d["name"].rsplit("::", 1)[1]
    f = as_slice(I, st, r)
    if nm == "RangeFull":
        return f
    if nm == "Range":
        a, b = i.f
    elif nm == "RangeFrom":
        a, b = i.f[0], f.len
    elif nm == "RangeTo":
        a, b = ZERO, i.f[0]
    else:
        return NotImplemented
    I.obligations += 1
    if not cond(st, T.ule(a, b)) or not cond(st, T.ule(b, f.len)):
        I.cur_ln = c.ln
        return panic(I, st, "BoundsCheck", "range out of bounds")
    return Fat(f.cell, f.path, T.add(f.off, a), T.sub(b, a))


@native(r"^<std::vec::Vec<.*> as std::ops::Index(Mut)?<.*>>::index(_mut)?$")
def vec_index(I, st, c):
    r, i = c.args
    x = load(I, st, r)
    if not isinstance(i, Term):
        return vec_range(I, st, c, r, i)
    n = seq_len(x.s)
    I.obligations += 1
    if not cond(st, T.ult(i, n)):
        I.cur_ln = c.ln
        return panic(I, st, "BoundsCheck", "index out of bounds")
    return Ref(r.cell, r.path + (("s",), ("e", i)))


@native(r"^<std::vec::Vec<.*> as std::ops::Drop>::drop$", r"^<.*RawVec<.*> as std::ops::Drop>::drop$", r"^std::mem::drop$", r"^<std::vec::IntoIter<.*> as std::ops::Drop>::drop$")
def vec_drop(I, st, c):
    if c.rname == "std::mem::drop":
        return NotImplemented
    return UNIT


@native(r"^<std::vec::Vec<.*> as std::iter::IntoIterator>::into_iter$")
def vec_into_iter(I, st, c):
    v = c.args[0]
    if c.dty.k != "adt" or c.dty.d["name"] != "std::vec::IntoIter":
        return NotImplemented
    if v.__class__ is Lazy:
        v = I.expand(st, v)
    return Nat("intoiter", (v.s,), c.dty)


@native(r"^<std::vec::IntoIter<.*> as std::iter::Iterator>::next$")
def into_iter_next(I, st, c):
    r = c.args[0]
    x = load(I, st, r)
    if x.__class__ is not Nat or x.kind != "intoiter":
        return NotImplemented
    s = x.a[0]
    n = seq_len(s)
    if cond(st, T.eq(n, ZERO)):
        return none(I, c.dty)
    v = I.elem(st, s, ZERO)
    I.set(st, r.cell, r.path, Nat("intoiter", (I.sub(st, s, ONE, T.sub(n, ONE)),), x.x))
    return some(I, c.dty, v)


@native(r"^<std::vec::IntoIter<.*> as std::iter::Iterator>::(try_fold|fold)$")
def into_iter_fold(I, st, c):
    """Folds over a known number of items."""
    r = c.args[0]
    x = load(I, st, r) if r.__class__ is Ref else r
    if x.__class__ is Lazy or x.__class__ is not Nat or x.kind != "intoiter" or not all(p.__class__ is B for p in x.a[0].p):
        return NotImplemented
    tr = c.rname.endswith("try_fold")
    items = [p.v for p in x.a[0].p]
    cell = ("fold", next(I.ids))
    st.cells[cell] = c.args[2]
    work, out = [(st, c.args[1], 0)], []
    while work:
        s, acc, k = work.pop()
        if r.__class__ is Ref:
            I.set(s, r.cell, r.path, Nat("intoiter", (mkseq([B(v) for v in items[k + (1 if k < len(items) else 0):]]),), x.x))
        if k == len(items):
            if not tr:
                out.append((s, acc))
                continue
            names = [v["name"] for v in c.dty.d["variants"]]
            vi = [i for i, n in enumerate(names) if n in ("Continue", "Ok", "Some")][0]
            out.append((s, Agg(c.dty, vi, (acc,))))
            continue
        for s2, v in I.call_value(s, Ref(cell, ()), [acc, items[k]]):
            if not tr:
                work.append((s2, v, k + 1))
                continue
            if v.__class__ is Lazy:
                return NotImplemented
            if v.ty.d["variants"][v.v]["name"] in ("Continue", "Ok", "Some"):
                work.append((s2, v.f[0], k + 1))
            else:
                out.append((s2, v))
    return out


@native(r"^std::boxed::Box::<T>::new_uninit$", r"^std::boxed::Box::<.*>::new_uninit_in$")
def box_uninit(I, st, c):
    cell = ("box", next(I.ids))
    st.cells[cell] = None
    return Ref(cell, ())


@native(r"^std::boxed::Box::<T>::new$", r"^std::sync::Arc::<T>::new$", r"^std::rc::Rc::<T>::new$")
def box_new(I, st, c):
    cell = ("box", next(I.ids))
    st.cells[cell] = c.args[0]
    return Ref(cell, ())


@native(r"box_assume_init_into_vec_unsafe$")
def box_vec(I, st, c):
    return VecV(load(I, st, c.args[0]))


@native(r"^<std::sync::Arc<.*> as std::ops::Deref>::deref$", r"^<std::sync::Arc<.*> as std::clone::Clone>::clone$")
def arc_deref(I, st, c):
    r = c.args[0]
    v = load(I, st, r)
    if v.__class__ in (Ref, Nat):
        return v
    return Ref(r.cell, r.path)


@native(r"^<std::sync::(Arc|MutexGuard)<.*> as std::ops::Drop>::drop$")
def arc_drop(I, st, c):
    return UNIT


@native(r"^std::sync::Mutex::<T>::new$")
def mutex_new(I, st, c):
    return Nat("mutex", (next(I.ids),), c.args[0])


@native(r"^std::sync::Mutex::<T>::lock$")
def mutex_lock(I, st, c):
    r = c.args[0]
    cell = ("mutex", r.cell, r.path) if r.__class__ is Ref else ("mutex", r)
    v = load(I, st, r) if r.__class__ is Ref else r
    if v.__class__ is Nat and v.kind == "mutex":
        cell = ("mutex", v.a)
    if cell not in st.cells:
        if v.__class__ is Nat and v.kind == "mutex" and v.x is not None:
            st.cells[cell] = v.x
        else:
            # Contents: the type argument of the mutex
            t = I.adt_arg(I.pointee(c.aty[0]), 0)
            v = I.guarded(I, st, t) if I.guarded else None
            st.cells[cell] = v if v is not None else I.fresh(st, t, ("mutex", "contents"))
    st.event("lock", cell)
    return ok(I, c.dty, Nat("guard", (), Ref(cell, ())))


@native(r"^<std::sync::MutexGuard<.*> as std::ops::Deref(Mut)?>::deref(_mut)?$")
def guard_deref(I, st, c):
    v = load(I, st, c.args[0])
    return v.x


@native(r"^std::sync::OnceLock::<T>::get_or_init$")
def once_init(I, st, c):
    r = c.args[0]
    t = I.pointee(c.dty)
    cell = ("once", r.cell if r.__class__ is Ref else r)
    if cell not in st.cells:
        if I.guarded is None:
            out = []
            for s2, v in I.call_value(st, c.args[1], []):
                s2.cells[cell] = v
                out.append((s2, Ref(cell, ())))
            return out
        st.cells[cell] = I.fresh(st, t, ("static", t.s))
    return Ref(cell, ())


@native(r"^<std::alloc::Global as .*>::deallocate$", r"^std::alloc::dealloc$", r"^alloc::raw_vec::.*::(grow_one|reserve|grow_amortized|do_reserve_and_handle)")
def alloc_nop(I, st, c):
    return UNIT


@native(r"^std::ptr::drop_in_place$", r"^std::mem::forget$")
def forget(I, st, c):
    return UNIT


@native(r"^std::mem::(replace)$")
def mem_replace(I, st, c):
    r, v = c.args
    old = I.get(st, r.cell, r.path)
    I.set(st, r.cell, r.path, v)
    return old


@native(r"^std::mem::swap$")
def mem_swap(I, st, c):
    a, b = c.args
    x, y = I.get(st, a.cell, a.path), I.get(st, b.cell, b.path)
    I.set(st, a.cell, a.path, y)
    I.set(st, b.cell, b.path, x)
    return UNIT


# ----------------------------------------------------- collecting of iterators
def _collect_fn(I, st, ity, vty, ety):
    """MIR of `let mut v = Vec::new(); while let Some(x) = it.next() { v.push(x) }`."""
    from mirdb import Fn

    key = ("collect", ity.id, vty.id)
    f = I.synth.get(key)
    if f is not None:
        return f
    nk = I.db.nexts.get(ity.id)
    nf = I.db.fns.get(nk)
    if nf is None:
        return None
    T_ = I.db.tys

    def mk(s, **d):
        i = max(T_) + 1
        r = {"id": i, "str": s}
        r.update(d)
        from mirdb import Ty

        T_[i] = Ty(r)
        return i

    opt = nf.d["locals"][0]
    it = mk(f"&mut {ity.s}", k="ref", to=ity.id, mut=True)
    vr = mk(f"&mut {vty.s}", k="ref", to=vty.id, mut=True)
    iz = I.by_str["isize"].id
    un = I.by_str["()"].id
    loc = [vty.id, ity.id, it, opt, iz, ety.id, vr, un]
    mv = lambda l, pr=(): {"o": "move", "p": [l, list(pr)]}
    push = {"name": f"std::vec::Vec::<{ety.s}>::push", "inst": None, "def": "std::vec::Vec::<T, A>::push", "rname": "std::vec::Vec::<T, A>::push", "args": [], "rargs": []}
    new = {"name": "std::vec::Vec::<T>::new", "inst": None, "def": "std::vec::Vec::<T>::new", "rname": "std::vec::Vec::<T>::new", "args": [], "rargs": []}
    nx = {"name": nf.name, "inst": nf.key, "def": "std::iter::Iterator::next", "rname": nf.defn, "args": [], "rargs": []}
    call = lambda f, args, aty, dst, to: {"t": "call", "f": f, "args": args, "aty": aty, "dst": [dst, []], "to": to, "ln": 0, "file": ""}
    blocks = [
        {"s": [], "t": call(new, [], [], 0, 1)},
        {"s": [["=", [2, []], ["ref", [1, []], True], 0]], "t": call(nx, [mv(2)], [it], 3, 2)},
        {"s": [["=", [4, []], ["discr", [3, []]], 0]], "t": {"t": "switch", "on": mv(4), "br": [["1", 3]], "else": 5}},
        {"s": [["=", [5, []], ["use", mv(3, (["d", 1], ["f", 0, ety.id]))], 0], ["=", [6, []], ["ref", [0, []], True], 0]], "t": call(push, [mv(6), mv(5)], [vr, ety.id], 7, 4)},
        {"s": [], "t": {"t": "goto", "to": 1}},
        {"s": [], "t": {"t": "return"}},
    ]
    f = Fn({"key": f"synth{len(I.synth)}", "name": f"collect::<{ity.s}>", "def": "collect", "args": [], "locals": loc, "blocks": blocks, "argc": 1, "spread": None, "local": False,
            "crate": "alloc", "file": "", "line": 0}, I.db)
    I.synth[key] = f
    return f


@native(r"SpecFromIter<T, I>.*>::from_iter$", r"SpecFromIterNested<T, I>>::from_iter$", r"^<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter$")
def from_iter(I, st, c):
    if c.dty.k != "adt" or c.dty.d["name"] != "std::vec::Vec":
        return NotImplemented
    ity = c.aty[0]
    if ity.id not in I.db.nexts:
        return NotImplemented
    ety = I.adt_arg(c.dty, 0)
    f = _collect_fn(I, st, ity, c.dty, ety)
    if f is None:
        return NotImplemented
    return I.run(st.clone(), f, [c.args[0]])


# ---------------------------------------------------------------------- text
@native(r"^std::str::from_utf8$", r"^core::str::converts::from_utf8$")
def from_utf8(I, st, c):
    f = as_slice(I, st, c.args[0])
    s = I.slice_get(st, f)
    k = const_bytes(s)
    if k is not None:
        try:
            k.decode()
            return ok(I, c.dty, f)
        except UnicodeDecodeError:
            return err(I, c.dty, Nat("utf8err", ()))
    if all(p.__class__ is S and p.region[0] in ("dec",) or p.__class__ is B and isinstance(p.v, Term) and st.urange(p.v)[1] < 128 for p in s.p):
        return ok(I, c.dty, f)
    t = V(1, ("utf8", s.p))
    if cond(st, t):
        return ok(I, c.dty, f)
    return err(I, c.dty, Nat("utf8err", ()))


@native(r"^std::str::from_utf8_unchecked(_mut)?$", r"^core::str::converts::from_utf8_unchecked$", r"^core::str::<impl str>::as_bytes(_mut)?$", r"^std::string::String::from_utf8_unchecked$")
def utf8_same(I, st, c):
    return c.args[0]


@native(r"^core::str::<impl str>::len$")
def str_len(I, st, c):
    return as_slice(I, st, c.args[0]).len


@native(r"^core::str::<impl str>::is_empty$")
def str_empty(I, st, c):
    return T.eq(as_slice(I, st, c.args[0]).len, ZERO)


def text_op(name):
    def h(I, st, c):
        """Opaque text function: the result is named by the function and its arguments."""
        a = []
        for x in c.args:
            try:
                a.append(seq_of(I, st, x).p)
            except _exc().Unsupported:
                a.append(x if not isinstance(x, Term) else st.norm(x))
        s = Seq((S(("text", name) + tuple(a), ZERO, V(64, ("textlen", name) + tuple(a), 0, 1 << 40), None),))
        return s

    return h


@native(r"^std::str::<impl str>::replace$")
def str_replace(I, st, c):
    s = text_op("replace")(I, st, c)
    return VecV(s)


@native(r"^core::str::<impl str>::trim(_start|_end)?(_matches)?$")
def str_trim(I, st, c):
    k = const_bytes(seq_of(I, st, c.args[0]))
    m = c.rname.rsplit("::", 1)[1]
    x = text_parts(seq_of(I, st, c.args[0]))
    if k is None and x is not None and len(c.args) == 1 and not any(y in (9, 10, 11, 12, 13, 32) or y > 127 for y in x if isinstance(y, int)):
        return c.args[0]
    if k is not None and len(c.args) == 1:
        try:
            k = k.decode()
        except UnicodeDecodeError:
            return NotImplemented
        k = k.lstrip() if m == "trim_start" else k.rstrip() if m == "trim_end" else k.strip()
        return new_slice(I, st, parts_seq(list(k.encode())))
    if x is not None and m.endswith("_matches"):
        # Whole occurrences of the pattern at the ends
        sep = text_pat(I, st, c.args[1])
        if not sep:
            return NotImplemented
        j, x = list(sep), list(x)
        if not m.startswith("trim_end"):
            while x[: len(j)] == j:
                x = x[len(j) :]
        if not m.startswith("trim_start"):
            while x and x[-len(j) :] == j:
                x = x[: -len(j)]
        return new_slice(I, st, parts_seq(x))
    if k is not None:
        return NotImplemented
    s = text_op(c.rname.rsplit("::", 1)[1])(I, st, c)
    # Part of the argument: never longer
    a = as_slice(I, st, c.args[0])
    st.assume(T.ule(seq_len(s), a.len), True)
    return new_slice(I, st, s)


@native(r"^core::str::<impl str>::strip_(prefix|suffix)$")
def str_strip(I, st, c):
    x = text_parts(seq_of(I, st, c.args[0]))
    sep = text_pat(I, st, c.args[1])
    if x is None or not sep:
        return NotImplemented
    j, x = list(sep), list(x)
    if len(x) < len(j) or (x[: len(j)] if "prefix" in c.rname else x[-len(j) :]) != j:
        return none(I, c.dty)
    return some(I, c.dty, new_slice(I, st, parts_seq(x[len(j) :] if "prefix" in c.rname else x[: -len(j)])))


@native(r"^core::str::<impl str>::(contains|starts_with|ends_with)$")
def str_pred(I, st, c):
    m = c.rname.rsplit("::", 1)[1]
    try:
        x, k = text_parts(seq_of(I, st, c.args[0])), text_pat(I, st, c.args[1])
    except _exc().Unsupported:
        x = None
    if x is not None and k and (all(isinstance(y, int) for y in x) or not any(48 <= y < 58 for y in k)):
        k = list(k)
        n = len(k)
        r = x[:n] == k if m == "starts_with" else x[-n:] == k if m == "ends_with" else any(x[i : i + n] == k for i in range(len(x)))
        return C(1, int(r))
    a = []
    for x in c.args:
        try:
            a.append(seq_of(I, st, x).p)
        except _exc().Unsupported:
            a.append(x if not isinstance(x, Term) else st.norm(x))
    return V(1, ("textpred", c.rname.rsplit("::", 1)[1]) + tuple(a))


def text_parts(s):
    """Text as a list of characters: byte values, or digits of unknown number given as a piece. None if not known."""
    out = []
    for p in s.p:
        if p.__class__ is B and isinstance(p.v, Term) and p.v.op == "c":
            out.append(p.v.a)
        elif p.__class__ is S and p.region[0] == "digits" and p.off is ZERO:
            out.append(p)
        else:
            return None
    return out


def parts_seq(x):
    return mkseq([B(C(8, y)) if isinstance(y, int) else y for y in x])


def text_pat(I, st, pat):
    """Pattern as octets."""
    if isinstance(pat, Term):
        return chr(pat.a).encode() if pat.op == "c" and pat.w == 32 else None
    try:
        return const_bytes(seq_of(I, st, pat)) or None
    except _exc().Unsupported:
        return None


def cut_parts(x, sep, limit=None):
    out, cur, i = [], [], 0
    k = list(sep)
    while i < len(x):
        if x[i : i + len(k)] == k and (limit is None or len(out) + 1 < limit):
            out.append(cur)
            cur = []
            i += len(k)
        else:
            cur.append(x[i])
            i += 1
    return out + [cur]


@native(r"^core::str::<impl str>::split$", r"^core::str::<impl str>::(splitn|rsplit|split_terminator)$")
def str_split(I, st, c):
    m = c.rname.rsplit("::", 1)[1]
    s = seq_of(I, st, c.args[0])
    pat = c.args[-1]
    sep = text_pat(I, st, pat)
    x = text_parts(s)
    if x is not None and sep:
        lim = None
        if m == "splitn":
            n = st.norm(c.args[1])
            if n.op != "c" or not n.a:
                return NotImplemented
            lim = n.a
        parts = cut_parts(x, sep, lim)
        if m == "rsplit":
            parts.reverse()
        if m == "split_terminator" and not parts[-1]:
            parts.pop()
        return Nat("splitk", (tuple(parts_seq(p) for p in parts),))
    if m != "split":
        return NotImplemented
    if isinstance(pat, Term) or sep:
        return Nat("split", (s, C(64, 0)), (sep, next(I.ids)))
    return NotImplemented


@native(r"^core::str::<impl str>::(r?split_once)$")
def str_split_once(I, st, c):
    s = seq_of(I, st, c.args[0])
    sep = text_pat(I, st, c.args[1])
    x = text_parts(s)
    if x is None or not sep:
        return NotImplemented
    parts = cut_parts(x, sep)
    if len(parts) < 2:
        return none(I, c.dty)
    j = list(sep)
    join = lambda ps: [y for i, p in enumerate(ps) for y in ((j if i else []) + p)]
    a, b = (parts[0], join(parts[1:])) if "rsplit" not in c.rname else (join(parts[:-1]), parts[-1])
    t = I.adt_arg(c.dty, 0)
    return some(I, c.dty, Agg(t, 0, (new_slice(I, st, parts_seq(a)), new_slice(I, st, parts_seq(b)))))


@native(r"^<std::str::(Split|SplitN|RSplit|SplitTerminator)<'a, P> as std::iter::Iterator>::next$", r"^<std::str::(Split|RSplit).* as std::iter::Iterator>::next$")
def split_next(I, st, c):
    r = c.args[0]
    x = load(I, st, r)
    if x.__class__ is Nat and x.kind == "splitk":
        ps = x.a[0]
        if not ps:
            return none(I, c.dty)
        I.set(st, r.cell, r.path, Nat("splitk", (ps[1:],)))
        return some(I, c.dty, new_slice(I, st, ps[0]))
    if x.__class__ is not Nat or x.kind != "split":
        return NotImplemented
    s, k = x.a
    sep, n = x.x
    # The number of the parts is one or more
    cnt = V(64, ("splitcnt", s.p, sep), 1, 1 << 40)
    if not cond(st, T.ult(k, cnt)):
        return none(I, c.dty)
    I.set(st, r.cell, r.path, Nat("split", (s, T.add(k, ONE)), x.x))
    part = Seq((S(("split", s.p, sep, k), ZERO, V(64, ("splitlen", s.p, sep, k), 0, 1 << 40), None),))
    st.assume(T.ule(seq_len(part), seq_len(s)), True)
    return some(I, c.dty, new_slice(I, st, part))


@native(r"^core::str::<impl str>::parse$")
def str_parse(I, st, c):
    s = seq_of(I, st, c.args[0])
    t = res_ty(I, c.dty, "Ok")
    w = I.tw(t)

    def bad():
        et = res_ty(I, c.dty, "Err")
        return err(I, c.dty, I.fresh(st, et, ("parseerr", next(I.ids))))

    if w is not None and t.k in ("int", "uint"):
        k = const_bytes(s)
        if k is not None:
            m = re.fullmatch(rb"[+-]?[0-9]+" if t.k == "int" else rb"\+?[0-9]+", k)
            v = int(k) if m else None
            lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if t.k == "int" else (0, (1 << w) - 1)
            if v is None or not lo <= v <= hi:
                return bad()
            return ok(I, c.dty, C(w, v))
        x = text_parts(s)
        if x is not None and len(x) == 1:
            # Decimal digits which denote a number of 32 bits
            v = V(32, ("number",) + x[0].region[1:])
            eff = w - (t.k == "int")
            if eff < 32:
                if not cond(st, T.ult(v, C(32, 1 << eff))):
                    return bad()
                return ok(I, c.dty, T.trunc(v, w))
            return ok(I, c.dty, T.zext(v, w) if w > 32 else v)
    good = V(1, ("parses", t.s, s.p))
    if not cond(st, good):
        return bad()
    if w is not None:
        return ok(I, c.dty, V(w, ("parsed", t.s, s.p)))
    if t.k == "adt":
        return ok(I, c.dty, Lazy(t, ("parsed", t.s, s.p)))
    return ok(I, c.dty, Nat("parsed", (t.s, s)))


# ------------------------------------------------------------------ formatting
@native(r"^core::fmt::rt::Argument::<.*>::new_(display|debug|lower_hex|upper_hex|octal|binary|pointer)$", r"^core::fmt::rt::Argument::<.*>::from_usize$")
def fmt_arg(I, st, c):
    kind = c.rname.rsplit("_", 1)[1] if "new_" in c.rname else "usize"
    kind = re.search(r"new_(\w+)", c.rname).group(1) if "new_" in c.rname else kind
    v = c.args[0]
    t = c.aty[0]
    while t is not None and t.k in ("ref", "ptr"):
        t = I.pointee(t)
        if t.k in ("str", "slice"):
            break
        v = load(I, st, v)
    return Nat("fmtarg", (kind, v), t)


@native(r"^std::fmt::Arguments::<'a>::new$", r"^core::fmt::rt::<impl std::fmt::Arguments<'a>>::new")
def fmt_args(I, st, c):
    tpl = const_bytes(seq_of(I, st, c.args[0]))
    args = [p.v for p in seq_of(I, st, c.args[1]).p]
    return Nat("fmtargs", (tpl, tuple(args)))


@native(r"^std::fmt::Arguments::<'a>::(from_str|from_str_nonconst|new_const)$", r"^core::fmt::rt::<impl std::fmt::Arguments<'a>>::new_const")
def fmt_const(I, st, c):
    return Nat("fmtargs", (None, (seq_of(I, st, c.args[0]),)))


def fmt_value(I, st, kind, v, t):
    if isinstance(v, Term) and t is not None and t.k in ("int", "uint") and kind in ("display", "debug", "usize"):
        return dec_rope(st, v, t.k == "int")
    if kind == "display" and (v.__class__ in (Fat, VecV, Seq)):
        return list(seq_of(I, st, v).p)
    if isinstance(v, Term):
        key = ("fmt", kind, st.norm(v))
    else:
        key = ("fmt", kind, next(I.ids))
    return [S(key, ZERO, V(64, ("fmtlen",) + key, 0, 1 << 30), None)]


def fmt_render(I, st, a):
    if a.__class__ is Ref:
        a = load(I, st, a)
    if a.__class__ is not Nat or a.kind != "fmtargs":
        n = next(I.ids)
        return Seq((S(("fmt", "?", n), ZERO, V(64, ("fmtlen", n), 0, 1 << 30), None),))
    tpl, args = a.a
    if tpl is None:
        return args[0]
    out = []
    i = 0
    n = 0
    while i < len(tpl):
        b = tpl[i]
        i += 1
        if b == 0:
            break
        if b < 128:
            out += [B(C(8, x)) for x in tpl[i : i + b]]
            i += b
        elif b == 128:
            k = tpl[i] | tpl[i + 1] << 8
            out += [B(C(8, x)) for x in tpl[i + 2 : i + 2 + k]]
            i += 2 + k
        else:
            plain = True
            for bit, sz in ((1, 4), (2, 2), (4, 2)):
                if b & bit:
                    plain = False
                    i += sz
            if b & 8:
                n = tpl[i] | tpl[i + 1] << 8
                i += 2
            arg = args[n]
            n += 1
            if plain:
                out += fmt_value(I, st, arg.a[0], arg.a[1], arg.x)
            else:
                key = ("fmtspec", arg.a[0], next(I.ids))
                out.append(S(key, ZERO, V(64, ("fmtlen",) + key, 0, 1 << 30), None))
    return mkseq(out)


@native(r"^std::fmt::format$", r"^std::fmt::format::format_inner$")
def fmt_format(I, st, c):
    return VecV(fmt_render(I, st, c.args[0]))


@native(r"^std::fmt::Write::write_fmt$", r"^<std::string::String as std::fmt::Write>::write_fmt$")
def write_fmt(I, st, c):
    r, a = c.args
    x = load(I, st, r)
    if x.__class__ is not VecV:
        return NotImplemented
    I.set(st, r.cell, r.path, VecV(mkseq(x.s.p + fmt_render(I, st, a).p)))
    return ok(I, c.dty, UNIT)


@native(r"ToString>::to_string$", r"^std::string::ToString::to_string$")
def to_string(I, st, c):
    t = c.aty[0]
    v = c.args[0]
    while t is not None and t.k == "ref":
        t = I.pointee(t)
        if t.k in ("str", "slice"):
            break
        v = load(I, st, v)
    if t is not None and t.k == "adt" and t.d["name"].startswith("gufo_snmp"):
        return NotImplemented
    return VecV(mkseq(fmt_value(I, st, "display", v, t)))


@native(r"^std::fmt::Formatter::<'a>::", r"^<.* as std::fmt::(Debug|Display)>::fmt$")
def fmt_fmt(I, st, c):
    return ok(I, c.dty, UNIT)


# --------------------------------------------------------------------- errors
@native(r"^nom::Needed::new$")
def needed(I, st, c):
    return I.fresh(st, c.dty, ("needed", next(I.ids)))


# ----------------------------------------------------------------------- time
@native(r"^std::time::Duration::from_(nanos|micros|millis|secs)$")
def dur_from(I, st, c):
    k = {"nanos": 1, "micros": 1000, "millis": 10**6, "secs": 10**9}[c.rname.rsplit("_", 1)[1]]
    return Nat("dur", (c.args[0], k))


@native(r"^std::time::Instant::now$")
def now(I, st, c):
    n = next(I.ids)
    st.event("now", n)
    return Nat("instant", ("now", n))


@native(r"^std::time::Instant::(checked_add|checked_sub)$")
def inst_add(I, st, c):
    a, d = c.args
    a = load(I, st, a) if a.__class__ is Ref else a
    d = load(I, st, d) if d.__class__ is Ref else d
    t = V(1, ("instok", a, d))
    if cond(st, t):
        return some(I, c.dty, Nat("instant", (c.rname.rsplit("_", 1)[1], a, d)))
    return none(I, c.dty)


@native(r"^std::time::Instant::(saturating_duration_since|duration_since|elapsed)$", r"^<std::time::Instant as std::ops::Sub.*>::sub$")
def inst_since(I, st, c):
    a = [load(I, st, x) if x.__class__ is Ref else x for x in c.args]
    if c.rname.endswith("elapsed"):
        n = next(I.ids)
        st.event("now", n)
        return Nat("dur", ("since", Nat("instant", ("now", n)), a[0]))
    return Nat("dur", ("since", a[0], a[1]))


@native(r"^<std::time::Instant as std::ops::Add<.*>>::add$")
def inst_plus(I, st, c):
    return Nat("instant", ("add", c.args[0], c.args[1]))


@native(r"^std::time::Duration::is_zero$")
def dur_zero(I, st, c):
    v = load(I, st, c.args[0])
    return V(1, ("durzero", v))


@native(r"^std::time::Duration::(saturating_sub|checked_sub|saturating_add|min|max)$", r"^<std::time::Duration as std::ops::(Add|Sub)>::(add|sub)$")
def dur_arith(I, st, c):
    n = c.rname.rsplit("::", 1)[1]
    if c.dty.k == "adt" and c.dty.d["name"] == "std::option::Option":
        t = V(1, ("durok", n, c.args[0], c.args[1]))
        if cond(st, t):
            return some(I, c.dty, Nat("dur", (n, c.args[0], c.args[1])))
        return none(I, c.dty)
    return Nat("dur", (n, c.args[0], c.args[1]))


@native(r"^std::cmp::Partial(Ord|Eq)::(lt|le|gt|ge|eq|ne)$", r"^<std::time::(Duration|Instant) as std::cmp::Partial(Ord|Eq)>::(lt|le|gt|ge|eq|ne)$",
        r"^std::cmp::Ord::(min|max)$", r"^<std::time::(Duration|Instant) as std::cmp::Ord>::(min|max|cmp)$")
def time_cmp(I, st, c):
    t = c.aty[0]
    r = t
    while r.k == "ref":
        r = I.pointee(r)
    if r.k != "adt" or r.d["name"] not in ("std::time::Duration", "std::time::Instant"):
        return NotImplemented
    op = c.rname.rsplit("::", 1)[1]
    a, b = [load(I, st, x) if x.__class__ is Ref else x for x in c.args]
    if op in ("min", "max"):
        return Nat(r.d["name"].rsplit("::", 1)[1].lower()[:7].replace("duratio", "dur"), (op, a, b))
    if op in ("eq", "ne"):
        e = V(1, ("timeeq", a, b))
        return e if op == "eq" else T.not_(e)
    if op in ("gt", "le"):
        a, b = b, a
    e = V(1, ("timelt", a, b))
    return e if op in ("lt", "gt") else T.not_(e)


# -------------------------------------------------------------------- sockets
SOCK = {
    "new": "socket_new", "connect": "connect", "send": "send", "recv": "recv", "set_read_timeout": "set_read_timeout", "set_nonblocking": "set_nonblocking",
}


def io_result(I, st, c, name, val):
    """Either the value or an error."""
    n = next(I.ids)
    t = V(1, ("io_ok", name, n))
    if cond_fresh(st, t):
        return t
    return t


def cond_fresh(st, t):
    return st.decide(t)


@native(r"^socket2::Socket::(new|connect|set_\w+|send)$", r"^socket2::Socket::recv$")
def sock_call(I, st, c):
    m = c.rname.rsplit("::", 1)[1]
    args = []
    for a in c.args:
        if m == "send" and a.__class__ is Fat:
            args.append(I.slice_get(st, a))
        elif a.__class__ is Ref and m != "recv":
            v = I.get(st, a.cell, a.path)
            args.append(v)
        else:
            args.append(a)
    n = st.nev
    out = []
    for good in (True, False):
        s2 = st.clone()
        s2.event("sock", m, tuple(args), good, n, c.fn.name)
        if m == "recv":
            if good:
                f = c.args[1]
                if f.__class__ is Ref:
                    f = as_slice(I, s2, f)
                k = V(64, ("recvlen", n), 0, (1 << 40))
                if not s2.assume(T.ule(k, f.len), True):
                    continue
                rest = T.sub(f.len, k)
                old = I.slice_get(s2, f)
                I.slice_set(s2, f, [S(("datagram", n), ZERO, k, None), S(("stale", n), ZERO, rest, None)])
                v = ok(I, c.dty, k)
            else:
                v = err(I, c.dty, Nat("ioerr", ("recv", n)))
        elif good:
            t = res_ty(I, c.dty, "Ok")
            if m == "new":
                v = ok(I, c.dty, Nat("socket", (n,)))
            elif I.tw(t) is not None:
                k = V(I.tw(t), ("sent", n))
                v = ok(I, c.dty, k)
            else:
                v = ok(I, c.dty, UNIT)
        else:
            v = err(I, c.dty, Nat("ioerr", (m, n)))
        out.append((s2, v))
    return out


@native(r"^std::io::Error::kind$")
def io_kind(I, st, c):
    v = load(I, st, c.args[0])
    return Nat("iokind", (v,), c.dty)


@native(r"^<std::io::ErrorKind as std::cmp::PartialEq>::(eq|ne)$")
def io_kind_eq(I, st, c):
    a, b = [load(I, st, x) for x in c.args]
    ne = c.rname.endswith("ne")
    if a.__class__ is Agg and b.__class__ is Agg:
        return boolc((a.v == b.v) != ne)
    if a.__class__ is Agg:
        a, b = b, a
    if a.__class__ is Nat and b.__class__ is Agg:
        name = b.ty.d["variants"][b.v]["name"]
        e = V(1, ("iokind", a.a[0], name))
        return T.not_(e) if ne else e
    return unknown(I, st, c)


@native(r"AsRawFd|as_raw_fd$")
def as_raw_fd(I, st, c):
    return V(32, ("fd", next(I.ids)))


@native(r"^<std::net::SocketAddr as std::convert::Into<.*>>::into$", r"^<T as std::convert::Into<U>>::into$", r"^<.* as std::convert::From<.*>>::from$")
def sockaddr_into(I, st, c):
    if c.dty.k == "adt" and "SockAddr" in c.dty.d["name"]:
        return Nat("sockaddr", (c.args[0],))
    return NotImplemented


# --------------------------------------------------------------------- random
@native(r"^rand::rng$", r"^rand::thread_rng$")
def rng(I, st, c):
    return Nat("rng", ())


@native(r"^rand::Rng::(random|gen)$")
def random(I, st, c):
    return V(I.tw(c.dty), ("random", next(I.ids)))


# --------------------------------------------------------------------- digests
def alg_of(name):
    if "Md5" in name or "md5" in name:
        return "md5"
    if "Sha1" in name or "sha1" in name:
        return "sha1"
    m = re.search(r"Sha(\d+)", name)
    return "sha" + m.group(1) if m else name


DIGEST_SIZE = {"md5": 16, "sha1": 20, "sha224": 28, "sha256": 32, "sha384": 48, "sha512": 64}


@native(r"^<D as digest::Digest>::new$")
def digest_new(I, st, c):
    return Nat("hasher", (Seq(()),), alg_of(c.name))


@native(r"^<D as digest::Digest>::update$")
def digest_update(I, st, c):
    r, s = c.args
    v = load(I, st, r)
    if v.__class__ is not Nat or v.kind != "hasher":
        return NotImplemented
    x = seq_of(I, st, s)
    I.set(st, r.cell, r.path, hash_more(v, x))
    return UNIT


@native(r"^<D as digest::Digest>::new_with_prefix$")
def digest_prefix(I, st, c):
    return hash_more(Nat("hasher", (Seq(()),), alg_of(c.name)), seq_of(I, st, c.args[0]))


@native(r"^<D as digest::Digest>::chain_update$")
def digest_chain(I, st, c):
    v, s = c.args
    if v.__class__ is not Nat or v.kind != "hasher":
        return NotImplemented
    return hash_more(v, seq_of(I, st, s))


def hash_more(v, x):
    """Long inputs are kept as a chain of tuples."""
    tail, chain = v.a[0].p, v.a[1:]
    if len(tail) > 400:
        chain = (chain, tail[:-1])
        tail = tail[-1:]
    return Nat("hasher", (Seq(tail[:-1] + mkseq(tail[-1:] + x.p).p),) + chain, v.x)


def hash_input(v):
    parts = [v.a[0].p]
    chain = v.a[1:]
    while chain:
        chain, t = chain
        parts.append(t)
    return mkseq([p for t in reversed(parts) for p in t])


def digest_rope(alg, s, st=None):
    return Seq((S(("digest", alg, s.p), ZERO, C(64, DIGEST_SIZE.get(alg, 0)), None),))


@native(r"^<D as digest::Digest>::finalize(_reset)?$")
def digest_final(I, st, c):
    v = c.args[0]
    if v.__class__ is Ref:
        r, v = v, load(I, st, v)
        I.set(st, r.cell, r.path, Nat("hasher", (Seq(()),), v.x))
    if v.__class__ is not Nat or v.kind != "hasher":
        return NotImplemented
    x = hash_input(v)
    st.event("hash", v.x, x)
    return digest_rope(v.x, x)


@native(r"^<D as digest::Digest>::digest$")
def digest_once(I, st, c):
    alg = alg_of(c.name)
    s = seq_of(I, st, c.args[0])
    st.event("hash", alg, s)
    return digest_rope(alg, s)


@native(r"GenericArray<T, N> as std::ops::Deref(Mut)?>::deref")
def ga_deref(I, st, c):
    return as_slice(I, st, c.args[0])


# --------------------------------------------------------------------- ciphers
def cipher_of(name):
    m = re.search(r"(cfb_mode|cbc|cfb8|ofb|ctr)::(?:\w+::)*(\w+)<([\w:]+)", name)
    if not m:
        return name
    return f"{m.group(1)}.{m.group(3).rsplit('::', 1)[-1].lower()}"


KEYLEN = {"aes128": (16, 16), "des": (8, 8), "aes192": (24, 16), "aes256": (32, 16), "tdesede3": (24, 8)}


@native(r"^<T as cipher::KeyIvInit>::(new_from_slices|new)$", r"^cipher::KeyIvInit::(new_from_slices|new)$")
def cipher_new(I, st, c):
    k, iv = seq_of(I, st, c.args[0]), seq_of(I, st, c.args[1])
    alg = cipher_of(c.name)
    kl = KEYLEN.get(alg.split(".")[-1])
    v = Nat("cipher", (k, iv), alg)
    if c.dty.k == "adt" and c.dty.d["name"] == "std::result::Result":
        if kl is None:
            return unknown(I, st, c)
        good = T.and_(T.eq(seq_len(k), C(64, kl[0])), T.eq(seq_len(iv), C(64, kl[1])))
        for n, w in ((seq_len(k), kl[0]), (seq_len(iv), kl[1])):
            if not cond(st, T.eq(n, C(64, w))):
                return err(I, c.dty, Nat("invalidlength", ()))
        return ok(I, c.dty, v)
    return v


def padkind(c):
    m = re.search(r"block_padding::(\w+)", c.name)
    return m.group(1) if m else "none"


def foreign(I, st, v, src, dec, mode):
    """What has been encrypted by the other side with a key or vector which is not this one, where that is looked for."""
    if not dec or not I.strict_cipher:
        return False
    src = Seq(tuple(src.p))
    if len(src.p) != 1 or src.p[0].__class__ is not S:
        return False
    p = src.p[0]
    r = p.region
    if r[0] != "cipher" or r[1] != v.x or p.off is not ZERO or seq_len(Seq(r[4])) is not p.len:
        return False
    if same_seq(st, Seq(r[2]), v.a[0]) and same_seq(st, Seq(r[3]), v.a[1]):
        return False
    I.mismatch.append((st, v.x, Seq(r[2]), v.a[0], Seq(r[3]), v.a[1]))
    return True


def crypt(I, st, v, src, dec, mode, n):
    """Pieces of the output. What has been encrypted with the same key and vector decrypts to the source."""
    k, iv = v.a
    src = Seq(tuple(src.p))
    if dec and len(src.p) == 1 and src.p[0].__class__ is S:
        p = src.p[0]
        r = p.region
        if r[0] == "cipher" and r[1] == v.x and r[5] == mode and p.off is ZERO and seq_len(Seq(r[4])) is p.len and same_seq(st, Seq(r[2]), k) and same_seq(st, Seq(r[3]), iv):
            return list(r[4])
    return [S(("plain" if dec else "cipher", v.x, k.p, iv.p, src.p, mode), ZERO, n, None)]


def same_seq(st, a, b):
    """Provably the same octets."""
    from_ = lambda q: [x for p in q.p for x in ([p.v] if p.__class__ is B else [V(8, ("byte", p.region, T.add(p.off, C(64, i)))) for i in range(p.len.a)] if p.__class__ is S and p.len.op == "c" and p.len.a <= 64 else [p])]
    x, y = from_(a), from_(b)
    if len(x) != len(y):
        return False
    for p, q in zip(x, y):
        if p is q:
            continue
        if not isinstance(p, Term) or not isinstance(q, Term):
            return False
        if st.norm(p) is not st.norm(q) and st.decide(T.eq(p, q)) is not True:
            return False
    return True


@native(r"^cipher::BlockEncryptMut::encrypt_padded_mut$", r"^cipher::BlockDecryptMut::decrypt_padded_mut$")
def encrypt_padded(I, st, c):
    v, buf, n = c.args[0], as_slice(I, st, c.args[1]), None
    if len(c.args) > 2:
        n = c.args[2]
    dec = "decrypt" in c.rname
    if n is None:
        n = buf.len
    if v.__class__ is not Nat or v.kind != "cipher":
        return NotImplemented
    s = I.slice_get(st, buf)
    bs = 8 if "des" in v.x else 16
    # NoPadding: the length has to be a multiple of the block and to fit
    good = V(1, ("padok", n, bs))
    m = T.urem(n, C(64, bs))
    if not cond(st, T.eq(m, ZERO)):
        return err(I, c.dty, Nat("paderr", ()))
    if not cond(st, T.ule(n, buf.len)):
        return err(I, c.dty, Nat("paderr", ()))
    plain = I.sub(st, s, ZERO, n)
    reg = (plain, padkind(c))
    st.event("decrypt" if dec else "encrypt", v.x, v.a[0], v.a[1], plain)
    f = Fat(buf.cell, buf.path, buf.off, n)
    if foreign(I, st, v, reg[0], dec, reg[1]):
        return []
    I.slice_set(st, f, crypt(I, st, v, reg[0], dec, reg[1], n))
    return ok(I, c.dty, f)


@native(r"^cipher::BlockDecryptMut::decrypt_padded_b2b_mut$", r"^cipher::BlockEncryptMut::encrypt_padded_b2b_mut$")
def decrypt_b2b(I, st, c):
    v, src, dst = c.args[0], as_slice(I, st, c.args[1]), as_slice(I, st, c.args[2])
    if v.__class__ is not Nat or v.kind != "cipher":
        return NotImplemented
    dec = "decrypt" in c.rname.rsplit("::", 1)[1]
    bs = 8 if "des" in v.x else 16
    if not cond(st, T.ule(src.len, dst.len)):
        return err(I, c.dty, Nat("unpaderr", ()))
    if not cond(st, T.eq(T.urem(src.len, C(64, bs)), ZERO)):
        return err(I, c.dty, Nat("unpaderr", ()))
    s = I.slice_get(st, src)
    reg = (s, padkind(c))
    st.event("decrypt" if dec else "encrypt", v.x, v.a[0], v.a[1], s)
    f = Fat(dst.cell, dst.path, dst.off, src.len)
    if foreign(I, st, v, reg[0], dec, reg[1]):
        return []
    I.slice_set(st, f, crypt(I, st, v, reg[0], dec, reg[1], src.len))
    return ok(I, c.dty, f)


@native(r"^cipher::AsyncStreamCipher::(decrypt|encrypt)_b2b$")
def stream_b2b(I, st, c):
    v, src, dst = c.args[0], as_slice(I, st, c.args[1]), as_slice(I, st, c.args[2])
    if v.__class__ is not Nat or v.kind != "cipher":
        return NotImplemented
    dec = "decrypt" in c.rname.rsplit("::", 1)[1]
    if not cond(st, T.eq(src.len, dst.len)):
        return err(I, c.dty, Nat("noteqerr", ()))
    s = I.slice_get(st, src)
    reg = (s, "stream")
    st.event("decrypt" if dec else "encrypt", v.x, v.a[0], v.a[1], s)
    if foreign(I, st, v, reg[0], dec, reg[1]):
        return []
    I.slice_set(st, dst, crypt(I, st, v, reg[0], dec, reg[1], src.len))
    return ok(I, c.dty, UNIT)


@native(r"^cipher::AsyncStreamCipher::(decrypt|encrypt)$")
def stream_inplace(I, st, c):
    v, dst = c.args[0], as_slice(I, st, c.args[1])
    if v.__class__ is not Nat or v.kind != "cipher":
        return NotImplemented
    dec = "decrypt" in c.rname.rsplit("::", 1)[1]
    s = I.slice_get(st, dst)
    reg = (s, "stream")
    st.event("decrypt" if dec else "encrypt", v.x, v.a[0], v.a[1], s)
    if foreign(I, st, v, reg[0], dec, reg[1]):
        return []
    I.slice_set(st, dst, crypt(I, st, v, reg[0], dec, reg[1], dst.len))
    return UNIT


# ------------------------------------------------------------------------ pyo3
@native(r"^pyo3::Python::<'_>::with_gil$")
def with_gil(I, st, c):
    return I.call_value(st, c.args[0], [Nat("gil", ())])


@native(r"^pyo3::Python::<'py>::allow_threads$")
def allow_threads(I, st, c):
    return I.call_value(st, c.args[1], [])


@native(r"^pyo3::Python::<'py>::None$", r"^pyo3::types::PyNone::get$")
def py_none(I, st, c):
    return Nat("pynone", ())


def py_val(I, st, v):
    if v.__class__ is Ref:
        x = load(I, st, v)
        if x.__class__ is Nat:
            return x
        return py_val(I, st, x)
    if isinstance(v, Term):
        return st.norm(v)
    return v


@native(r"^pyo3::types::PyBool::new$")
def py_bool(I, st, c):
    return Nat("pybool", (c.args[1],))


@native(r"^pyo3::types::PyBytes::new$")
def py_bytes(I, st, c):
    return Nat("pybytes", (seq_of(I, st, c.args[1]),))


@native(r"^pyo3::types::PyString::new$")
def py_string(I, st, c):
    return Nat("pystr", (seq_of(I, st, c.args[1]),))


@native(r"pyo3::IntoPyObject<.*> for (i|u)\w+>::into_pyobject$")
def py_int(I, st, c):
    return ok(I, c.dty, Nat("pyint", (c.args[0],), re.search(r"for (\w+)>", c.rname).group(1)))


@native(r"pyo3::IntoPyObject<.*> for f64>::into_pyobject$")
def py_float(I, st, c):
    return ok(I, c.dty, Nat("pyfloat", (c.args[0],)))


@native(r"pyo3::IntoPyObject<.*> for (&str|std::string::String|&std::string::String)>::into_pyobject$")
def py_str2(I, st, c):
    return ok(I, c.dty, Nat("pystr", (seq_of(I, st, c.args[0]),)))


@native(r"^pyo3::types::PyTuple::new$")
def py_tuple(I, st, c):
    v = c.args[1]
    try:
        s = seq_of(I, st, v)
    except _exc().Unsupported:
        if v.__class__ is Agg and v.ty is not None and v.ty.k == "tuple":
            s = Seq(tuple(B(x) for x in v.f))
        else:
            raise
    return ok(I, c.dty, Nat("pytuple", (s,)))


@native(r"^pyo3::types::PyList::empty$", r"^pyo3::types::PyDict::new$")
def py_list(I, st, c):
    n = next(I.ids)
    k = "pylist" if "List" in c.rname else "pydict"
    cell = ("pyobj", n)
    st.cells[cell] = VecV(Seq(()))
    st.event("pynew", k, cell)
    return Nat(k, (), cell)


@native(r"^pyo3::types::PyList::new$")
def py_list_of(I, st, c):
    s = seq_of(I, st, c.args[1])
    if not all(p.__class__ is B for p in s.p):
        return NotImplemented
    cell = ("pyobj", next(I.ids))
    st.event("pynew", "pylist", cell)
    items = [py_val(I, st, p.v) for p in s.p]
    st.cells[cell] = VecV(mkseq([B(v) for v in items]))
    for v in items:
        st.event("append", cell, v)
    return ok(I, c.dty, Nat("pylist", (), cell))


@native(r"PyListMethods<'py>>::append$")
def py_append(I, st, c):
    l = load(I, st, c.args[0])
    v = py_val(I, st, c.args[1])
    x = st.cells[l.x]
    st.cells[l.x] = VecV(mkseq(x.s.p + (B(v),)))
    st.event("append", l.x, v)
    return ok(I, c.dty, UNIT)


@native(r"PyListMethods<'py>>::(is_empty|len)$", r"PyDictMethods<'py>>::(is_empty|len)$")
def py_is_empty(I, st, c):
    l = load(I, st, c.args[0])
    n = seq_len(st.cells[l.x].s)
    if c.rname.endswith("len"):
        return n
    return T.eq(n, ZERO)


@native(r"PyDictMethods<'py>>::set_item$")
def py_set_item(I, st, c):
    d = load(I, st, c.args[0])
    k, v = py_val(I, st, c.args[1]), py_val(I, st, c.args[2])
    x = st.cells[d.x]
    st.cells[d.x] = VecV(mkseq(x.s.p + (B(Nat("item", (k, v))),)))
    st.event("setitem", d.x, k, v)
    return ok(I, c.dty, UNIT)


@native(r"^pyo3::(Bound|Borrowed|Py)::<.*>::(as_any|into_any|to_owned|unbind|bind|into_bound|clone_ref|as_unbound|as_borrowed|into_ptr)$", r"^<pyo3::(Bound|Borrowed|Py)<.*> as std::ops::Deref>::deref$",
        r"^<pyo3::(Bound|Borrowed|Py)<.*> as std::clone::Clone>::clone$", r"^<pyo3::Py<.*> as std::convert::From<pyo3::(Bound|Py|Borrowed)<.*>>>::from$", r"pyo3::IntoPy<.*>>::into_py$",
        r"^<T as pyo3::conversion::.*>::into_py$")
def py_ident(I, st, c):
    v = c.args[0]
    if v.__class__ is Ref:
        x = load(I, st, v)
        if x.__class__ is Nat:
            return x
    return v


@native(r"^<T as std::borrow::ToOwned>::to_owned$", r"^<T as std::string::ToString>::to_string$")
def to_owned(I, st, c):
    v = c.args[0]
    if v.__class__ is Ref:
        x = load(I, st, v)
        if x.__class__ is Nat:
            return x if c.rname.endswith("to_owned") else NotImplemented
    if v.__class__ is Nat and c.rname.endswith("to_owned"):
        return v
    return NotImplemented


@native(r"^pyo3::(Py|Bound)::<.*>::new$")
def py_new(I, st, c):
    return ok(I, c.dty, Nat("pyobj", (c.args[-1],)))


@native(r"^pyo3::pybacked::PyBackedStr", r"^<pyo3::pybacked::Py\w+ as ")
def py_backed(I, st, c):
    v = load(I, st, c.args[0])
    if v.__class__ is Lazy:
        v = I.expand(st, v)
    if v.__class__ is Nat and v.kind == "obj":
        s = Seq((S(("pystr",) + tuple(v.a[1]), ZERO, V(64, ("pystrlen",) + tuple(v.a[1]), 0, 1 << 40), None),))
        return new_slice(I, st, s)
    return as_slice(I, st, v)


@native(r"^pyo3::exceptions::(\w+)::new_err$", r"^pyo3::PyErr::new$", r"^gufo_snmp::error::Py\w+::new_err$")
def py_err(I, st, c):
    m = re.search(r"::(Py\w+)::new_err", c.name) or re.search(r"PyErr::new::<(?:[\w:]*::)?(Py\w+)", c.name)
    msg = None
    try:
        msg = seq_of(I, st, c.args[0])
    except Exception:
        pass
    return Nat("pyerr", (m.group(1) if m else c.name, msg))


@native(r"^<gufo_snmp::error::SnmpError as .*Into<pyo3::PyErr>>::into$")
def _never(I, st, c):
    return NotImplemented


# ------------------------------------------------------- function-like values
@native(r"^std::ops::FnOnce::call_once$", r"^std::ops::FnMut::call_mut$", r"^std::ops::Fn::call$")
def call_fn(I, st, c):
    f = c.args[0]
    t = c.aty[0]
    while t is not None and t.k == "ref":
        t = I.pointee(t)
        f = load(I, st, f) if f.__class__ is Ref else f
    args = list(c.args[1].f) if len(c.args) > 1 and c.args[1].__class__ is Agg else list(c.args[1:])
    if t is not None and t.k == "fndef":
        return I.call_const(st.clone(), t.d["fn"], args, c.dty)
    return I.call_value(st.clone(), f, args, c.dty)


def ctor_named(I, st, name, dty, args):
    """Constructor function of an enum variant or a tuple structure."""
    if name is None or dty.k != "adt":
        return None
    base = re.sub(r"::<.*>", "", name)
    last = base.rsplit("::", 1)[-1]
    dn = dty.d["name"]
    if dty.d["kind"] == "enum":
        owner = base.rsplit("::", 1)[0]
        for i, v in enumerate(dty.d["variants"]):
            if v["name"] == last and len(v["fields"]) == len(args) and owner.rsplit("::", 1)[-1] == dn.rsplit("::", 1)[-1]:
                return Agg(dty, i, tuple(args))
    elif dty.d["kind"] == "struct" and last == dn.rsplit("::", 1)[-1] and len(dty.d["variants"][0]["fields"]) == len(args):
        return Agg(dty, 0, tuple(args))
    return None


def ctor(I, st, c):
    return ctor_named(I, st, c.name, c.dty, c.args)


# --------------------------------------------------------------------- ordering
@native(r"^<std::vec::Vec<.*> as std::cmp::(Partial)?Ord>::(partial_)?cmp$", r"SlicePartialOrd>::partial_compare$", r"SliceOrd>::compare$",
        r"^core::slice::cmp::<impl std::cmp::(Partial)?Ord for \[T\]>::(partial_)?cmp$", r"^core::slice::cmp::<impl std::cmp::(Partial)?Ord.* for \[\w+\]>::(partial_)?cmp$")
def lexi(I, st, c):
    """Lexicographic order of two sequences of known size."""
    a, b = seq_of(I, st, load(I, st, c.args[0])), seq_of(I, st, load(I, st, c.args[1]))
    na, nb = seq_len(a), seq_len(b)
    if na.op != "c" or nb.op != "c" or max(na.a, nb.a) > 512:
        return NotImplemented
    t = c.dty
    opt = t.d["name"] == "std::option::Option"
    if opt:
        t = I.T[t.d["variants"][I.vidx(t, "Some")]["fields"][0][1]]
    if t.d["name"] != "std::cmp::Ordering":
        return NotImplemented

    def ret(n):
        v = Agg(t, I.vidx(t, n), ())
        return Agg(c.dty, I.vidx(c.dty, "Some"), (v,)) if opt else v

    for i in range(min(na.a, nb.a)):
        k = C(64, i)
        x, y = I.elem(st, a, k), I.elem(st, b, k)
        if not isinstance(x, Term) or not isinstance(y, Term):
            return NotImplemented
        if x is y:
            continue
        ety = c.aty[0]
        signed = re.search(r"[\[<]i(8|16|32|64|size)[\]>]", c.rname + c.name) is not None
        if cond(st, T.eq(x, y)):
            continue
        lt = T.slt(x, y) if signed else T.ult(x, y)
        return ret("Less" if cond(st, lt) else "Greater")
    return ret("Less" if na.a < nb.a else "Greater" if na.a > nb.a else "Equal")


@native(r"^(std|core)::array::from_fn$", r"^(std|core)::array::<impl \[T; N\]>::map$")
def array_from_fn(I, st, c):
    """Elements of an array by a function."""
    if c.dty.k != "array" or not isinstance(c.dty.d["len"], int) or c.dty.d["len"] > 64:
        return NotImplemented
    given = None
    if len(c.args) == 2:
        given = seq_of(I, st, c.args[0]).p
        if not all(p.__class__ is B for p in given):
            return NotImplemented
    fc = ("from_fn", next(I.ids))
    st.cells[fc] = c.args[-1]
    work = [(st, ())]
    for i in range(c.dty.d["len"]):
        x = C(64, i) if given is None else given[i].v
        work = [(s2, made + (B(v),)) for s, made in work for s2, v in I.call_value(s, Ref(fc, ()), [x])]
    return [(s, mkseq(made)) for s, made in work]


@native(r"^std::vec::Vec::<.*>::(dedup_by|retain|retain_mut)$")
def vec_filter(I, st, c):
    """Elements of a vector of known length left out by a predicate."""
    r, f = c.args
    x = load(I, st, r)
    if x.__class__ is not VecV or not all(p.__class__ is B for p in x.s.p):
        return NotImplemented
    dedup = c.rname.endswith("dedup_by")
    items = [p.v for p in x.s.p]
    fc = ("filter", next(I.ids))
    st.cells[fc] = f
    work, out = [(st, (), 0)], []
    while work:
        s, kept, k = work.pop()
        if k == len(items):
            I.set(s, r.cell, r.path, VecV(mkseq([B(v) for v in kept])))
            out.append((s, UNIT))
            continue
        if dedup and not kept:
            work.append((s, (items[k],), k + 1))
            continue
        a = ("item", next(I.ids))
        s.cells[a] = items[k]
        args = [Ref(a, ())]
        if dedup:
            b = ("item", next(I.ids))
            s.cells[b] = kept[-1]
            args.append(Ref(b, ()))
        for s2, v in I.call_value(s, Ref(fc, ()), args):
            if not isinstance(v, Term):
                return NotImplemented
            for yes in (True, False):
                s3 = s2.clone()
                if s3.assume(v, yes):
                    work.append((s3, kept if yes is dedup else kept + (items[k],), k + 1))
    return out
