"""Set up of the analyses: contracts of the leaf decoders, abstract inputs, obligations."""
import json
import os
import random
import re
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mirdb
import terms as T
import interp
from interp import Interp, Unsupported, Budget
from state import State
from terms import Term, C, V, TRUE, FALSE
from vals import Agg, Lazy, Ref, Fat, Seq, B, S, Z, VecV, Nat, UNIT, ONE, ZERO, seq_len, mkseq, int_bytes

MAXLEN = interp.MAXLEN


def c64(n):
    return C(64, n)


class Missing(Exception):
    """An anchor of the analysis is not there any more."""


# ------------------------------------------------------------------ inputs
def region(I, st, name, n=None, facts=True):
    """Slice over unknown octets."""
    name = name if isinstance(name, tuple) else (name,)
    ln = V(64, name + ("len",), 0, MAXLEN) if n is None else (c64(n) if isinstance(n, int) else n)
    cell = ("in",) + name
    st.cells[cell] = Seq((S(name, ZERO, ln, None),))
    return Fat(cell, (), ZERO, ln)


def text(I, st, name):
    """Unknown string."""
    return region(I, st, name)


def byte(name, i):
    name = name if isinstance(name, tuple) else (name,)
    return V(8, ("byte", name, c64(i) if isinstance(i, int) else i))


def literal(I, st, pieces, name="lit"):
    """Slice over the given pieces: ints, terms or (region, off, len)."""
    ps = []
    for p in pieces:
        if isinstance(p, int):
            ps.append(B(C(8, p)))
        elif isinstance(p, (bytes, bytearray)):
            ps.extend(B(C(8, x)) for x in p)
        elif isinstance(p, Term):
            ps.append(B(p))
        elif isinstance(p, (S, B, Z)):
            ps.append(p)
        else:
            ps.append(S(p[0] if isinstance(p[0], tuple) else (p[0],), p[1], p[2], None))
    s = mkseq(ps)
    cell = ("in", name)
    st.cells[cell] = s
    return Fat(cell, (), ZERO, seq_len(s))


def cellref(st, name, v):
    cell = ("in", name)
    st.cells[cell] = v
    return Ref(cell, ())


def slice_id(I, st, f):
    """Identity of the first octet of the slice."""
    if f.__class__ is Lazy:
        f = I.expand(st, f)
    if f.__class__ is not Fat:
        return None
    s = I.slice_get(st, f)
    if not s.p:
        return None
    p = s.p[0]
    if p.__class__ is S and p.ety is None:
        return (p.region, p.off)
    if p.__class__ is B and isinstance(p.v, Term) and p.v.op == "v" and isinstance(p.v.a, tuple) and p.v.a[0] == "byte":
        return (p.v.a[1], p.v.a[2])
    return None


# --------------------------------------------------------------- contracts
def nom_err(I, st, c, name, variants=("Incomplete", "Failure")):
    out = []
    et = I.models.res_ty(I, c.dty, "Err")
    for v in variants:
        s2 = st.clone()
        n = ("nomerr", name, v)
        s2.cells[("variant", n)] = I.vidx(et, v)
        out.append((s2, I.models.err(I, c.dty, Lazy(et, n))))
    return out


def extent(st, f, tid):
    """Positions of the contents of the element at the start of the slice."""
    cs = V(64, ("cs",) + tid, 0, MAXLEN)
    ce = V(64, ("ce",) + tid, 0, MAXLEN)
    # Region offset and slice offset may differ
    d = T.sub(tid[1], f.off)
    end = T.add(f.off, f.len)
    x, y = T.sub(cs, d), T.sub(ce, d)
    if not (st.assume(T.ule(T.add(f.off, c64(2)), x), True) and st.assume(T.ule(x, y), True) and st.assume(T.ule(y, end), True)):
        return None
    return x, y, end


def header_contract(I, st, c):
    f = c.args[0]
    if f.__class__ is Lazy:
        f = I.expand(st, f)
    tid = slice_id(I, st, f)
    if tid is None:
        return NotImplemented
    out = nom_err(I, st, c, ("hdr",) + tid)
    s2 = st.clone()
    r = extent(s2, f, tid)
    if r is None:
        return out
    cs, ce, end = r
    n = T.sub(ce, cs)
    okt = I.models.res_ty(I, c.dty, "Ok")
    ht = I.T[okt.d["elems"][1]]
    vals = []
    for fn_, ft in ht.d["variants"][0]["fields"]:
        t = I.T[ft]
        if fn_ == "length":
            vals.append(n)
        elif fn_ == "class":
            vals.append(Lazy(t, ("cls",) + tid))
        elif fn_ == "constructed":
            vals.append(V(1, ("cons",) + tid))
        elif fn_ == "tag":
            vals.append(V(I.tw(t), ("tag",) + tid))
        else:
            vals.append(I.fresh(s2, t, ("hdr", fn_) + tid))
    hdr = Agg(ht, 0, tuple(vals))
    tail = Fat(f.cell, f.path, cs, T.sub(end, cs))
    s2.event("tlv", tid)
    out.append((s2, I.models.ok(I, c.dty, Agg(okt, 0, (tail, hdr)))))
    return out


def _hdr_len(I, st, v):
    h = I.models.load(I, st, v)
    i = [x[0] for x in h.ty.d["variants"][0]["fields"]].index("length")
    return h.f[i]


def int_decode_contract(I, st, c):
    """SnmpInt::decode(content, header)."""
    f = c.args[0]
    tid = slice_id(I, st, f)
    n = _hdr_len(I, st, c.args[1])
    if tid is None:
        return NotImplemented
    s1 = st.clone()
    et = I.models.res_ty(I, c.dty, "Err")
    okt = I.models.res_ty(I, c.dty, "Ok")
    out = [(s1, I.models.err(I, c.dty, Lazy(et, ("interr",) + tid)))]
    s2 = st.clone()
    v = V(64, ("int",) + tid + (n,))
    s2.event("int", v)
    out.append((s2, I.models.ok(I, c.dty, Agg(okt, 0, (v,)))))
    return out


def value_contract(I, st, c):
    """SnmpValue::from_ber(i)."""
    f = c.args[0]
    tid = slice_id(I, st, f)
    if tid is None:
        return NotImplemented
    out = nom_err(I, st, c, ("val",) + tid)
    s2 = st.clone()
    r = extent(s2, f, tid)
    if r is None:
        return out
    cs, ce, end = r
    n = T.sub(ce, cs)
    okt = I.models.res_ty(I, c.dty, "Ok")
    vt = I.T[okt.d["elems"][1]]
    tail = Fat(f.cell, f.path, ce, T.sub(end, ce))
    s2.event("value", tid)
    out.append((s2, I.models.ok(I, c.dty, Agg(okt, 0, (tail, Lazy(vt, ("val",) + tid))))))
    return out


def relative_contract(I, st, c):
    """SnmpRelativeOid::normalize(&self, &oid) -> SnmpOid."""
    a = I.models.load(I, st, c.args[0])
    b = I.models.load(I, st, c.args[1])
    return Lazy(c.dty, ("relative", repr(a), repr(b)))


def rel_match(suffix, *parts):
    def m(c):
        for n in (c.rname, c.name):
            if n.endswith(suffix) and all(p in n for p in parts):
                return True
        return False

    return m


HEADER = (rel_match("::from_ber", "ber::header::BerHeader"), header_contract)
INT = (rel_match("::decode", "ber::int::SnmpInt"), int_decode_contract)
VALUE = (rel_match("::from_ber", "snmp::value::SnmpValue"), value_contract)
RELATIVE = (rel_match("::normalize", "SnmpRelativeOid"), relative_contract)


# -------------------------------------------------------------- evaluation
class Unknown(Exception):
    pass


def path_of(st):
    r = []
    p = st.path
    while p is not None:
        p, *rest = p
        r.append(rest)
    r.reverse()
    return r


def oid_text_contract(I, st, c):
    """SnmpOid::try_from(&str): refused or some canonical OID."""
    f = c.args[0]
    s = I.slice_get(st, f) if f.__class__ is Fat else None
    name = None
    if s is not None and len(s.p) == 1 and s.p[0].__class__ is S:
        name = s.p[0].region
    if name is None:
        return NotImplemented
    out = []
    s1 = st.clone()
    et = I.models.res_ty(I, c.dty, "Err")
    s1.event("oid-refused", name)
    out.append((s1, I.models.err(I, c.dty, Lazy(et, ("oiderr",) + name))))
    s2 = st.clone()
    okt = I.models.res_ty(I, c.dty, "Ok")
    n = V(64, ("oidlen",) + name, 1, 1 << 40)
    seq = Seq((S(("oid",) + name, ZERO, n, None),))
    cow = I.T[okt.d["variants"][0]["fields"][0][1]]
    v = Agg(okt, 0, (Agg(cow, I.vidx(cow, "Owned"), (VecV(seq),)),))
    s2.event("oid", name)
    out.append((s2, I.models.ok(I, c.dty, v)))
    return out


OIDTEXT = (rel_match("::try_from", "SnmpOid", "TryFrom<&str>"), oid_text_contract)


def message_contract(I, st, c):
    """<Message as TryFrom<&[u8]>>::try_from."""
    f = c.args[0]
    tid = slice_id(I, st, f)
    if tid is None:
        return NotImplemented
    et = I.models.res_ty(I, c.dty, "Err")
    okt = I.models.res_ty(I, c.dty, "Ok")
    s1, s2 = st.clone(), st.clone()
    s1.event("undecodable", tid)
    s2.event("message", tid)
    return [(s1, I.models.err(I, c.dty, Lazy(et, ("msgerr",) + tid))), (s2, I.models.ok(I, c.dty, Lazy(okt, ("msg",) + tid)))]


MESSAGE = (rel_match("::try_from", "snmp::msg::v", "TryFrom<&[u8]>"), message_contract)


# ------------------------------------------------------ contracts of the buffer
class BufRoles:
    """Which field of Buffer is what, found by what free() and data() return."""

    def __init__(self, db):
        self.ty = None
        for t in db.tys.values():
            if t.k == "adt" and t.d["name"] == "gufo_snmp::buf::buffer::Buffer":
                self.ty = t
        if self.ty is None:
            raise Missing("type Buffer")
        fs = self.ty.d["variants"][0]["fields"]
        self.names = [f[0] for f in fs]
        self.data = None
        I = Interp(db, K=4)
        for i, f in enumerate(fs):
            t = I.inner(I.T[f[1]])
            if t.k == "array":
                self.data = i
                self.size = t.d["len"]
        self.pos = None
        fn = find(db, "gufo_snmp::buf::buffer::Buffer::free")
        st = State()
        r = cellref(st, "b", Lazy(self.ty, ("b",)))
        outs = I.run(st, fn, [r])
        for s, v in outs:
            for i, n in enumerate(self.names):
                if isinstance(v, Term) and v.op == "v" and v.a == ("b", n):
                    self.pos = i
        if self.pos is None or self.data is None:
            raise Missing("fields of Buffer")


def find(db, name):
    for f in db.local_fns():
        if f.name == name:
            return f
    raise Missing(f"function {name}")


def find_re(db, rx):
    r = re.compile(rx)
    fs = [f for f in db.local_fns() if r.search(f.name)]
    if len(fs) != 1:
        raise Missing(f"function {rx}: {len(fs)} candidates")
    return fs[0]


_roles = {}


def roles(db):
    r = _roles.get(id(db))
    if r is None:
        r = _roles[id(db)] = BufRoles(db)
    return r


def buf_push(I, st, c, ref, pieces, n):
    """Prepend to the buffer, or OutOfBuffer."""
    ro = roles(I.db)
    b = I.models.load(I, st, ref)
    if b.__class__ is not Agg:
        return NotImplemented
    pos = b.f[ro.pos]
    data = b.f[ro.data]
    if data.__class__ is Lazy:
        data = I.expand(st, data)
    out = []
    full = T.ult(pos, n)
    s1 = st.clone()
    if s1.assume(full, True):
        et = I.models.res_ty(I, c.dty, "Err")
        s1.event("full", pos, n)
        vi = [i for i, v in enumerate(et.d["variants"]) if v["name"] == "OutOfBuffer"]
        e = Agg(et, vi[0], ()) if vi else Lazy(et, ("full",))
        out.append((s1, I.models.err(I, c.dty, e)))
    s2 = st.clone()
    if s2.assume(full, False):
        p2 = T.sub(pos, n)
        h = data.p[0] if data.p else None
        if h.__class__ is S and s2.same(h.len, pos):
            l, r = [S(h.region, h.off, p2, h.ety)], list(data.p[1:])
        else:
            l, r = I.split(s2, data.p, pos)
            l, _ = I.split(s2, l, p2)
        f = list(b.f)
        f[ro.pos] = p2
        f[ro.data] = mkseq(l + list(pieces) + r)
        I.set(s2, ref.cell, ref.path, Agg(b.ty, 0, tuple(f)))
        out.append((s2, I.models.ok(I, c.dty, UNIT)))
    return out


def _ref(I, st, v):
    if v.__class__ is Lazy:
        v = I.expand(st, v)
    return v


def push_contract(I, st, c):
    ref = _ref(I, st, c.args[0])
    f = _ref(I, st, c.args[1])
    if f.__class__ is Ref:
        f = I.models.as_slice(I, st, f)
    s = I.slice_get(st, f)
    return buf_push(I, st, c, ref, s.p, seq_len(s))


def push_tag_len_contract(I, st, c):
    ref = _ref(I, st, c.args[0])
    tag, v = c.args[1], c.args[2]
    lo, hi = st.urange(v)
    if hi < 128:
        ps = [B(tag), B(T.trunc(v, 8))]
    elif lo >= 128 and hi < 256:
        ps = [B(tag), B(C(8, 0x81)), B(T.trunc(v, 8))]
    elif lo >= 256 and hi < 65536:
        ps = [B(tag), B(C(8, 0x82)), B(T.trunc(T.lshr(v, 8), 8)), B(T.trunc(v, 8))]
    else:
        n = V(64, ("tll", v), 2, 4)
        ps = [S(("taglen", tag, v), ZERO, n, None)]
        return buf_push(I, st, c, ref, ps, n)
    return buf_push(I, st, c, ref, ps, c64(len(ps)))


def minimal_int(n):
    k = 1
    while not -(1 << (8 * k - 1)) <= n < (1 << (8 * k - 1)):
        k += 1
    return n.to_bytes(k, "big", signed=True)


def int_push_contract(I, st, c):
    v = I.models.load(I, st, c.args[0])
    ref = _ref(I, st, c.args[1])
    x = v.f[0] if v.__class__ is Agg else v
    if x.op == "c":
        b = minimal_int(T.scv(x))
        return buf_push(I, st, c, ref, [B(C(8, t)) for t in (2, len(b), *b)], c64(len(b) + 2))
    n = V(64, ("intl", x), 3, 10)
    return buf_push(I, st, c, ref, [S(("berint", x), ZERO, n, None)], n)


PUSH = (rel_match("Buffer::push"), push_contract)
TAGLEN = (rel_match("Buffer::push_tag_len"), push_tag_len_contract)
INTPUSH = (rel_match("::push_ber", "ber::int::SnmpInt"), int_push_contract)


def empty_buffer(I, st, name, default=False):
    """A buffer nothing is written to."""
    ro = roles(I.db)
    fs = ro.ty.d["variants"][0]["fields"]
    f = []
    for i, (n, ft) in enumerate(fs):
        if i == ro.pos:
            f.append(c64(ro.size))
        elif i == ro.data:
            f.append(Seq((S((("uninit", name) if default else ("stale", name)), ZERO, c64(ro.size), None),)))
        else:
            f.append(ZERO if default else I.fresh(st, I.T[ft], ("stale", name, n)))
    return Agg(ro.ty, 0, tuple(f))


def pool_contents(I, st, t):
    """The pool holds emptied buffers (they are checked when they are put there)."""
    if t.k == "adt" and t.d["name"].endswith("::Vec") and "Buffer" in t.s:
        et = roles(I.db).ty
        n = V(64, ("pool", "len"), 0, 1 << 32)
        return VecV(Seq((S(("pool",), ZERO, n, et), B(empty_buffer(I, st, "pool")))))
    return None


# ------------------------------------------------------------- running a unit
import witness


class Run:
    """Abstract execution of one function for a unit."""

    def __init__(self, ctx, K=4, overrides=(), steps=3_000_000, outs=6000):
        self.ctx = ctx
        self.I = Interp(ctx.db, K=K)
        self.I.overrides = list(overrides)
        self.I.guarded = pool_contents
        self.I.max_steps = steps
        self.I.max_outs = outs
        self.st = State()

    def go(self, fn, args):
        I = self.I
        self.fn = fn
        self.outs = []
        self.complete = False
        try:
            self.outs = I.run(self.st, fn, args)
            self.complete = not I.unsup
        finally:
            c = self.ctx
            c.n_paths += len(self.outs)
            c.fns.update(f.name for f in I.visited.values() if f.local)
            c.n_blocks += len({b for b in I.blocks})
        return self.outs

    def panics(self, props, key, what=""):
        """Every panic the analysis could not exclude is looked for concrete values."""
        I, c = self.I, self.ctx
        n = 0
        bad = False
        seen = set()
        for p in I.panics:
            where = p.stack[-1]
            sig = (where, p.kind, p.msg[:60])
            if sig in seen:
                continue
            e = witness.search(p.st)
            if e is None:
                n += 1
                continue
            seen.add(sig)
            bad = True
            c.bad(props, f"{key}.panic", f"{what}{p.kind} panic ({p.msg[:120]}) is reached with {witness.describe(e)}", f"{short(where)} called from {' <- '.join(short(x) for x in p.stack[-4:-1][::-1])}")
        for (fn, bb), st in I.stuck.items():
            e = witness.search(st)
            if e is not None:
                bad = True
                c.bad(props, f"{key}.progress", f"a loop of {short(fn)} repeats without any progress with {witness.describe(e)}", short(fn))
        if not bad:
            if n or not self.complete:
                c.undecided(props, f"{key}.panic", f"{n} possible panics without a witness, analysis {'complete' if self.complete else 'incomplete: ' + str(sorted(set(I.unsup))[:2])[:200]}", short(self.fn.name))
            else:
                c.ok(props, f"{key}.panic", f"no panic is reachable, {len(self.outs)} paths", short(self.fn.name))
            loops = [f"{short(f)}:{'none' if p is None else p}" for (f, b), p in I.loops.items()]
            nop = [f for (f, b), p in I.loops.items() if p is None]
            if nop:
                c.undecided(props, f"{key}.progress", f"no ranking found: {nop[:3]}"[:200], short(self.fn.name))
            elif loops:
                c.ok(props, f"{key}.progress", "every loop makes progress: " + "; ".join(loops)[:300], short(self.fn.name))
        return not bad


def short(n):
    n = re.sub(r"gufo_snmp::", "", n)
    return n


def is_ok(v):
    return v.__class__ is Agg and v.ty is not None and v.ty.k == "adt" and v.ty.d["variants"][v.v]["name"] == "Ok"


def is_err(v):
    return v.__class__ is Agg and v.ty is not None and v.ty.k == "adt" and v.ty.d["variants"][v.v]["name"] == "Err"


def vname(v):
    if v.__class__ is Agg and v.ty is not None and v.ty.k == "adt":
        return v.ty.d["variants"][v.v]["name"]
    return None


def field(v, name):
    for i, f in enumerate(v.ty.d["variants"][v.v]["fields"]):
        if f[0] == name:
            return v.f[i]
    raise Missing(f"field {name}")


def compare(ctx, st, got, want, props, key, what, where):
    """The two terms are equal on this path."""
    if got is want or (isinstance(got, Term) and isinstance(want, Term) and got.w == want.w and st.same(got, want)):
        ctx.ok(props, key, what, where)
        return True
    if not (isinstance(got, Term) and isinstance(want, Term)) or got.w != want.w:
        ctx.undecided(props, key, f"{what}: {str(got)[:80]} is not {str(want)[:80]}", where)
        return None
    try:
        e = witness.search(st, lambda e: e.val(got) != e.val(want))
    except witness.Unknown:
        e = None
    if e is not None:
        ctx.bad(props, key, f"{what}: it is {got!s:.120} where {want!s:.120} is due; with {witness.describe(e)} it is {e.val(got):#x} instead of {e.val(want):#x}", where)
        return False
    ctx.undecided(props, key, f"{what}: {str(got)[:80]} vs {str(want)[:80]}", where)
    return None


def feasible(st):
    """Concrete values of the inputs take this path."""
    try:
        return witness.search(st)
    except witness.Unknown:
        return None


def refuse(ctx, st, props, key, what, where):
    """This path must not exist."""
    e = feasible(st)
    if e is not None:
        ctx.bad(props, key, f"{what}; with {witness.describe(e)}", where)
        return False
    ctx.undecided(props, key, what + " (no witness)", where)
    return None


# ----------------------------------------------------------- what a value depends on
def support(I, st, v, acc=None, d=0):
    """Octets the value is made of: terms (atoms) and pieces of regions."""
    acc = acc if acc is not None else []
    c = v.__class__
    if c is Term:
        for a in T.atoms(v):
            if isinstance(a.a, tuple) and a.a[0] == "byte":
                acc.append((a.a[1], a.a[2], ONE))
    elif c is Agg:
        for x in v.f:
            if x is not None:
                support(I, st, x, acc, d + 1)
    elif c is Seq:
        for p in v.p:
            if p.__class__ is S and p.ety is None:
                acc.append((p.region, p.off, p.len))
            elif p.__class__ is B:
                support(I, st, p.v, acc, d + 1)
    elif c is VecV:
        support(I, st, v.s, acc, d + 1)
    elif c is Fat and d < 12:
        try:
            support(I, st, I.slice_get(st, v), acc, d + 1)
        except (Unsupported, interp.NeedFork):
            pass
    elif c is Nat:
        for x in v.a:
            support(I, st, x, acc, d + 1)
    return acc


def path_terms(st):
    for x in path_of(st):
        for t in x:
            if isinstance(t, Term):
                yield t


def within(ctx, I, st, v, reg, lo, hi, props, key, what, where):
    """The value and the choice of the path depend on octets lo..hi of the region only."""
    acc = support(I, st, v)
    for t in path_terms(st):
        support(I, st, t, acc)
    seen = set()
    good = True
    for r, off, n in acc:
        if r != reg or (off, n) in seen:
            continue
        seen.add((off, n))
        for cond in (T.ult(off, lo), T.ult(hi, T.add(off, n))):
            if st.decide(cond) is False:
                continue
            s2 = st.clone()
            s2.assume(T.ult(ZERO, n), True)
            if not s2.assume(cond, True):
                continue
            good = False
            refuse(ctx, s2, props, key, f"{what}: octets {off}+{n} are read where the element spans {lo}..{hi}", where)
    if good:
        ctx.ok(props, key, what, where)
    return good
