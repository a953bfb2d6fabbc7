"""Abstract interpreter of MIR.

Walks the control flow graphs of the compiled functions over abstract values, with a trace
partition per feasible branch. Loops which do not end after a bounded number of partitions
are widened to an inductive invariant, so the result covers every input."""
import itertools
import re
import sys

import terms as T
from terms import Term, C, V, TRUE, FALSE, boolc
from state import State, NeedFork, Infeasible
from vals import Agg, Lazy, Ref, Fat, Seq, B, S, Z, VecV, Nat, FnV, UNIT, ONE, ZERO, seq_len, mkseq, plen, int_bytes, bytes_int

sys.setrecursionlimit(20000)


def _ageless(s):
    """Name of a type without its lifetimes."""
    return re.sub(r"<>", "", re.sub(r"'\w+(, )?", "", s))


class Unsupported(Exception):
    pass


class NeedVariant(Exception):
    def __init__(self, lazy, variants):
        self.lazy = lazy
        self.variants = variants


class Diverge(Exception):
    """The partition ends here."""


class PanicX(Exception):
    def __init__(self, msg):
        self.msg = msg


TRANSPARENT = {
    "std::ptr::NonNull", "std::ptr::Unique", "std::boxed::Box", "std::mem::ManuallyDrop", "std::mem::MaybeUninit",
    "std::mem::MaybeDangling", "core::num::niche_types::UsizeNoHighBit", "std::num::NonZero", "std::boxed::BoxRaw",
    "core::num::niche_types::NonZeroUsizeInner", "core::num::niche_types::NonZeroU64Inner", "std::mem::maybe_dangling::MaybeDangling",
}


class Loc:
    __slots__ = ("cell", "path", "ty", "off", "len", "var")

    def __init__(self, cell, path, ty, off=None, len=None, var=0):
        self.cell, self.path, self.ty, self.off, self.len, self.var = cell, path, ty, off, len, var


class Call:
    __slots__ = ("name", "defn", "rname", "args", "aty", "dty", "fn", "ln", "file", "f", "targs")


class Panic:
    def __init__(self, kind, msg, stack, st, ln):
        self.kind, self.msg, self.stack, self.st, self.ln = kind, msg, stack, st, ln


MAXLEN = (1 << 62) - 1


def lenv(name):
    return V(64, name, 0, MAXLEN)


class Interp:
    def __init__(self, db, K=10):
        self.db = db
        self.T = db.tys
        self.K = K
        self.loop_k = {}
        self.ids = itertools.count(1)
        self.unk = itertools.count(1)
        self.wid = itertools.count(1)
        self.panics = []
        self.unsup = []
        self.overrides = []
        self.strict_cipher = False
        self.mismatch = []
        self.guarded = None
        self.join_loops = True
        self.invs = {}
        self.last_inv = None
        self.stuck = {}
        self.visited = {}
        self.blocks = set()
        self.stack = []
        self.quiet = 0
        self.loops = {}
        self.unknown_calls = {}
        self.steps = 0
        self.max_steps = 3_000_000
        self.max_conc = 5000
        self.natcache = {}
        self.obligations = 0
        self.synth = {}
        self.methods = {}
        self.on_return = None
        self.consts = {}
        self.max_outs = 6000
        import models

        self.natives = models.NATIVES
        self.models = models
        by = {}
        for t in db.tys.values():
            by.setdefault(t.s, t)
        self.by_str = by
        self.u8 = by["u8"]
        self.usize = by["usize"]
        self.bool = by["bool"]

    # ------------------------------------------------------------------ types
    def tw(self, ty):
        k = ty.k
        if k == "bool":
            return 1
        if k == "char":
            return 32
        if k in ("int", "uint", "float"):
            return ty.d["bits"]
        if k in ("ptr", "ref", "fnptr"):
            return 64
        return None

    def transparent(self, ty):
        return ty.k == "adt" and ty.d["name"] in TRANSPARENT

    def ftype(self, ty, i, var=0):
        k = ty.k
        if k == "adt":
            return self.T[ty.d["variants"][var]["fields"][i][1]]
        if k == "tuple":
            return self.T[ty.d["elems"][i]]
        if k == "closure":
            return self.T[ty.d["upvars"][i]]
        raise Unsupported(f"field of {ty.s}")

    def pointee(self, ty):
        if ty.k in ("ref", "ptr"):
            return self.T[ty.d["to"]]
        if ty.k == "adt" and ty.d["name"] == "std::boxed::Box":
            return self.T[ty.d["args"][0]] if isinstance(ty.d["args"][0], int) else self.T[ty.d["args"][0]["ty"]]
        if self.transparent(ty):
            return self.pointee(self.ftype(ty, 0))
        raise Unsupported(f"pointee of {ty.s}")

    def inner(self, ty):
        """Peel the transparent wrappers."""
        while self.transparent(ty):
            fs = ty.d["variants"][0]["fields"]
            if ty.d["name"] == "std::mem::MaybeUninit":
                ty = self.T[fs[1][1]]
            elif ty.d["name"] == "std::boxed::Box":
                return ty
            else:
                ty = self.T[fs[0][1]]
        return ty

    def uninhabited(self, ty):
        if ty.k == "never":
            return True
        if ty.k == "adt":
            if ty.d["kind"] == "enum":
                return not ty.d["variants"] or (ty.d["name"] == "std::convert::Infallible")
            return False
        return False

    def variants(self, ty):
        r = []
        for i, v in enumerate(ty.d["variants"]):
            if any(self.uninhabited(self.T[f[1]]) for f in v["fields"]):
                continue
            r.append(i)
        return r

    def vidx(self, ty, name):
        for i, v in enumerate(ty.d["variants"]):
            if v["name"] == name:
                return i
        raise Unsupported(f"no {name} in {ty.s}")

    def adt_arg(self, ty, i):
        """The i-th type argument of the ADT."""
        n = 0
        for a in ty.d["args"]:
            if isinstance(a, int):
                if n == i:
                    return self.T[a]
                n += 1
        raise Unsupported(f"argument {i} of {ty.s}")

    # ----------------------------------------------------------------- values
    def fresh(self, st, ty, name):
        """Unknown value of the type, expanded one level when that is cheap."""
        w = self.tw(ty)
        if w is not None and ty.k not in ("ptr", "ref", "fnptr"):
            if ty.k == "char":
                return V(32, name, 0, 0x10FFFF)
            return V(w, name)
        return Lazy(ty, name)

    def expand(self, st, z):
        ty, name = z.ty, z.name
        it = self.inner(ty)
        if it is not ty:
            return self.expand(st, Lazy(it, name)) if self.tw(it) is None or it.k in ("ref", "ptr") else self.fresh(st, it, name)
        k = ty.k
        if k in ("ref", "ptr") or (k == "adt" and ty.d["name"] == "std::boxed::Box"):
            to = self.pointee(ty)
            cell = ("lz", name)
            if to.k in ("slice", "str"):
                n = lenv(name + ("len",))
                if cell not in st.cells:
                    ety = None if to.k == "str" else self.T[to.d["elem"]]
                    st.cells[cell] = Seq((S(name, ZERO, n, None if ety is None or ety.s == "u8" else ety),))
                return Fat(cell, (), ZERO, n)
            if cell not in st.cells:
                st.cells[cell] = self.fresh(st, to, name + ("*",))
            return Ref(cell, ())
        if k == "array":
            e = self.T[ty.d["elem"]]
            ei = self.inner(e)
            return Seq((S(name, ZERO, C(64, ty.d["len"]), None if ei.s == "u8" else e),))
        if k == "tuple":
            return Agg(ty, 0, tuple(self.fresh(st, self.T[t], name + (i,)) for i, t in enumerate(ty.d["elems"])))
        if k == "closure":
            return Agg(ty, 0, tuple(self.fresh(st, self.T[t], name + (i,)) for i, t in enumerate(ty.d["upvars"])))
        if k == "adt":
            n = ty.d["name"]
            if n == "std::vec::Vec":
                e = self.adt_arg(ty, 0)
                return VecV(Seq((S(name, ZERO, lenv(name + ("len",)), None if e.s == "u8" else e),)))
            if n == "std::string::String":
                return VecV(Seq((S(name, ZERO, lenv(name + ("len",)), None),)))
            if ty.d["kind"] == "struct":
                if not self.structural(ty):
                    return Nat("obj", (ty.d["name"], name))
                return Agg(ty, 0, tuple(self.fresh(st, self.T[f[1]], name + (f[0],)) for f in ty.d["variants"][0]["fields"]))
            if ty.d["kind"] == "enum":
                vs = self.variants(ty)
                if len(vs) == 1:
                    return self.variant(st, z, vs[0])
                d = st.cells.get(("variant", name))
                if d is not None:
                    return self.variant(st, z, d)
                raise NeedVariant(z, vs)
        raise Unsupported(f"expand {ty.s}")

    def structural(self, ty):
        n = ty.d["name"]
        return n.startswith("gufo_snmp::") or n.startswith("std::ops::") or n.startswith("std::iter::") or n.startswith("nom::") or n.startswith(
            "std::slice::") or n.startswith("core::str::") or n.startswith("std::str::") or n == "std::cmp::Reverse"

    def variant(self, st, z, i):
        v = z.ty.d["variants"][i]
        return Agg(z.ty, i, tuple(self.fresh(st, self.T[f[1]], z.name + (v["name"], f[0])) for f in v["fields"]))

    def proj(self, st, v, s):
        if v.__class__ is Agg:
            if s.__class__ is int:
                r = v.f[s] if s < len(v.f) else None
                if r is None:
                    raise Unsupported("read of an uninitialised field")
                return r
        if v.__class__ is Seq:
            if s[0] == "e":
                return self.elem(st, v, s[1])
            if s[0] == "r":
                return self.sub(st, v, s[1], s[2])
        if v.__class__ is VecV:
            if s == ("s",):
                return v.s
            if s == 1:
                return seq_len(v.s)
            if s == 0:  # String -> Vec
                return v
            if s.__class__ is tuple:
                return self.proj(st, v.s, s)
        if s.__class__ is tuple and s[0] == "e" and s[1] is ZERO:
            return v
        if v.__class__ is Nat and s == ("s",):
            return v
        raise Unsupported(f"projection {s} of {str(v)[:80]}")

    def get(self, st, cell, path):
        v = st.cells.get(cell)
        if v is None:
            raise Unsupported(f"read of unset {cell}")
        for i, s in enumerate(path):
            if v.__class__ is Lazy:
                v = self.expand(st, v)
                self.set(st, cell, path[:i], v)
            v = self.proj(st, v, s)
        return v

    def force(self, st, cell, path, v):
        """Expand a lazy value in place."""
        if v.__class__ is Lazy:
            v = self.expand(st, v)
            self.set(st, cell, path, v)
        return v

    def set(self, st, cell, path, val):
        if not path:
            st.cells[cell] = val
            return
        st.cells[cell] = self._set(st, st.cells.get(cell), path, 0, val)

    def _set(self, st, v, path, i, val):
        if i == len(path):
            return val
        s = path[i]
        if v.__class__ is Lazy:
            v = self.expand(st, v)
        if v is None:
            raise Unsupported("write to an unset aggregate")
        if v.__class__ is Agg and s.__class__ is int:
            f = list(v.f)
            while len(f) <= s:
                f.append(None)
            f[s] = self._set(st, f[s], path, i + 1, val)
            return Agg(v.ty, v.v, tuple(f))
        if v.__class__ is Seq:
            if s[0] == "e":
                n = seq_len(v)
                if st.same(n, s[1]):
                    old = None
                    pieces = v.p + (B(self._set(st, None, path, i + 1, val)),)
                    return mkseq(pieces)
                l, r = self.split(st, v.p, s[1])
                m, r = self.split(st, r, ONE)
                old = None
                if i + 1 < len(path):
                    old = self.elem(st, Seq(tuple(m)), ZERO)
                return mkseq(l + [B(self._set(st, old, path, i + 1, val))] + r)
            if s[0] == "r":
                l, r = self.split(st, v.p, s[1])
                m, r = self.split(st, r, s[2])
                n = self._set(st, Seq(tuple(m)), path, i + 1, val)
                return mkseq(l + list(n.p) + r)
        if v.__class__ is VecV:
            if s == ("s",):
                return VecV(self._set(st, v.s, path, i + 1, val))
            if s == 0:
                return self._set(st, v, path, i + 1, val)
            if s == 1:
                return self.set_len(st, v, val)
            return VecV(self._set(st, v.s, path, i, val))
        if s.__class__ is tuple and s[0] == "e" and s[1] is ZERO:
            return self._set(st, v, path, i + 1, val)
        raise Unsupported(f"write {s} to {str(v)[:80]}")

    def set_len(self, st, v, n):
        if st.same(seq_len(v.s), n):
            return v
        l, r = self.split(st, v.s.p, n)
        return VecV(mkseq(l))

    # -------------------------------------------------------------- sequences
    def split(self, st, pieces, at):
        """Split the list of pieces at the offset."""
        pieces = list(pieces)
        if at is ZERO:
            return [], pieces
        # Known distance from a boundary
        pos = ZERO
        for i, p in enumerate(pieces):
            n = plen(p)
            if pos is at:
                return pieces[:i], pieces[i:]
            end = T.add(pos, n)
            if end is at:
                return pieces[: i + 1], pieces[i + 1 :]
            if p.__class__ is not B:
                k = T.sub(at, pos)
                x = T.sub(end, at)
                if (k.op == "c" and k.a < 1 << 40 and st.decide(T.ule(k, n))) or (
                    k.op != "c" and x.op == "c" and x.a < 1 << 40 and st.decide(T.ule(x, n))
                ):
                    k = T.sub(at, pos) if k.op == "c" else T.sub(n, x)
                    rest = T.sub(n, k)
                    if p.__class__ is S:
                        a, b = S(p.region, p.off, k, p.ety), S(p.region, T.add(p.off, k), rest, p.ety)
                    else:
                        a, b = Z(p.val, k), Z(p.val, rest)
                    return pieces[:i] + [a], [b] + pieces[i + 1 :]
            pos = end
        pos = ZERO
        for i, p in enumerate(pieces):
            if st.same(pos, at):
                return pieces[:i], pieces[i:]
            n = plen(p)
            end = T.add(pos, n)
            d = st.decide(T.ult(at, end))
            if d is None:
                e = T.eq(at, end)
                if st.decide(e) is None:
                    raise NeedFork(T.ult(at, end))
                d = not st.decide(e)
                if d:
                    raise NeedFork(T.ult(at, end))
            if d:
                if p.__class__ is B:
                    if st.decide(T.eq(at, pos)) is None:
                        raise NeedFork(T.eq(at, pos))
                    return pieces[:i], pieces[i:]
                k = T.sub(at, pos)
                rest = T.sub(n, k)
                if p.__class__ is S:
                    a, b = S(p.region, p.off, k, p.ety), S(p.region, T.add(p.off, k), rest, p.ety)
                else:
                    a, b = Z(p.val, k), Z(p.val, rest)
                return pieces[:i] + [a], [b] + pieces[i + 1 :]
            pos = end
        return pieces, []

    def sub(self, st, seq, off, n):
        l, r = self.split(st, seq.p, off)
        m, r = self.split(st, r, n)
        return mkseq(m)

    def elem(self, st, seq, idx):
        l, r = self.split(st, seq.p, idx)
        # Skip empty pieces
        while r and r[0].__class__ is not B and st.decide(T.eq(plen(r[0]), ZERO)):
            r = r[1:]
        if not r:
            raise Unsupported(f"element {idx} of {str(seq)[:80]}")
        p = r[0]
        if p.__class__ is B:
            return p.v
        if st.decide(T.eq(p.len, ZERO)) is None:
            raise NeedFork(T.eq(p.len, ZERO))
        if p.__class__ is S:
            if p.ety is None:
                return V(8, ("byte", p.region, p.off))
            return self.fresh(st, p.ety, ("el", p.region, p.off))
        return p.val

    def slice_get(self, st, fat):
        v = self.get(st, fat.cell, fat.path)
        v = self.force(st, fat.cell, fat.path, v)
        if v.__class__ is VecV:
            v = v.s
        if v.__class__ is not Seq:
            if v.__class__ in (Term, Agg):
                return Seq((B(v),))
            raise Unsupported(f"slice of {str(v)[:60]}")
        return self.sub(st, v, fat.off, fat.len)

    def slice_set(self, st, fat, pieces):
        v = self.get(st, fat.cell, fat.path)
        v = self.force(st, fat.cell, fat.path, v)
        vec = v.__class__ is VecV
        if vec:
            v = v.s
        l, r = self.split(st, v.p, fat.off)
        if r == [] and st.same(seq_len(v), fat.off):
            m = []
        else:
            m, r = self.split(st, r, fat.len)
        s = mkseq(l + list(pieces) + r)
        self.set(st, fat.cell, fat.path, VecV(s) if vec else s)

    def range_of(self, st, p, n):
        """n elements at the pointer as a slice."""
        if p.__class__ is Fat:
            return Fat(p.cell, p.path, p.off, n)
        if p.__class__ is Ref and p.path and p.path[-1].__class__ is tuple and p.path[-1][0] == "e":
            return Fat(p.cell, p.path[:-1], p.path[-1][1], n)
        return None

    # ----------------------------------------------------------------- places
    def place(self, st, fid, fn, p):
        l = p[0]
        loc = Loc(("f", fid, l), (), fn.locals[l])
        for e in p[1]:
            k = e[0]
            if k == "*":
                v = self.force(st, loc.cell, loc.path, self.get(st, loc.cell, loc.path))
                to = self.pointee(loc.ty)
                if v.__class__ is Fat:
                    loc = Loc(v.cell, v.path, to, v.off, v.len)
                elif v.__class__ is Ref:
                    loc = Loc(v.cell, v.path, to)
                elif v.__class__ is Nat:
                    # Pointer to an object of a library
                    loc = Loc(loc.cell, loc.path, to)
                else:
                    raise Unsupported(f"dereference of {str(v)[:80]}")
            elif k == "f":
                if self.transparent(loc.ty):
                    t = self.T[e[2]] if len(e) > 2 and e[2] is not None else self.ftype(loc.ty, e[1])
                    if loc.ty.d["name"] in ("std::boxed::Box",) and e[1] != 0:
                        t = self.ftype(loc.ty, e[1])
                    loc = Loc(loc.cell, loc.path, t, loc.off, loc.len)
                else:
                    t = self.T[e[2]] if len(e) > 2 and e[2] is not None else self.ftype(loc.ty, e[1], loc.var)
                    loc = Loc(loc.cell, loc.path + (e[1],), t)
            elif k == "d":
                loc = Loc(loc.cell, loc.path, loc.ty, loc.off, loc.len, e[1])
            elif k == "i":
                idx = self.get(st, ("f", fid, e[1]), ())
                loc = self.index(st, loc, idx)
            elif k == "ci":
                if e[3]:
                    n = loc.len if loc.off is not None else C(64, loc.ty.d["len"])
                    idx = T.sub(n, C(64, e[1]))
                else:
                    idx = C(64, e[1])
                loc = self.index(st, loc, idx)
            elif k == "ss":
                n = loc.len if loc.off is not None else C(64, loc.ty.d["len"])
                a = C(64, e[1])
                b = T.sub(n, C(64, e[2])) if e[3] else C(64, e[2])
                off = loc.off if loc.off is not None else ZERO
                ety = self.T[loc.ty.d["elem"]]
                if loc.ty.k == "array":
                    loc = Loc(loc.cell, loc.path + (("r", T.add(off, a), T.sub(b, a)),), loc.ty)
                else:
                    loc = Loc(loc.cell, loc.path, loc.ty, T.add(off, a), T.sub(b, a))
            else:
                raise Unsupported(f"place {e}")
        return loc

    def index(self, st, loc, idx):
        ety = self.T[loc.ty.d["elem"]]
        off = loc.off if loc.off is not None else ZERO
        path = loc.path
        return Loc(loc.cell, path + (("e", T.add(off, idx)),), ety)

    def read(self, st, loc):
        if loc.off is not None:
            raise Unsupported("unsized value")
        v = self.get(st, loc.cell, loc.path)
        if v.__class__ is Lazy and (loc.ty.k in ("ref", "ptr")):
            v = self.force(st, loc.cell, loc.path, v)
        return v

    def operand(self, st, fid, fn, o):
        k = o["o"]
        if k == "copy" or k == "move":
            p = o["p"]
            if not p[1]:
                v = st.cells.get(("f", fid, p[0]))
                if v is None:
                    t = fn.locals[p[0]]
                    if self.is_zst(t):
                        return self.zst(t)
                    raise Unsupported(f"read of unset _{p[0]} in {fn.name}")
                if v.__class__ is Lazy and v.ty.k in ("ref", "ptr"):
                    v = st.cells[("f", fid, p[0])] = self.expand(st, v)
                return v
            loc = self.place(st, fid, fn, p)
            v = self.read(st, loc)
            if v.__class__ is VecV and loc.ty.k == "adt" and loc.ty.d["name"] in ("std::ptr::NonNull", "std::ptr::Unique"):
                # The pointer of the vector
                q = loc.path
                while q and q[-1] == 0 and self.get(st, loc.cell, q[:-1]) is v:
                    q = q[:-1]
                return Ref(loc.cell, q + (("s",), ("e", ZERO)))
            return v
        if k == "const":
            return self.const(st, o)
        if k == "rtc":
            return FALSE
        raise Unsupported(f"operand {k}")

    def is_zst(self, t):
        return t.d.get("sz") == 0 or t.k in ("fndef", "never")

    def zst(self, t):
        if t.k == "fndef":
            return FnV(t)
        if t.k == "tuple":
            return Agg(t, 0, tuple(self.zst(self.T[x]) for x in t.d["elems"]))
        if t.k == "adt" and t.d["kind"] == "struct":
            return Agg(t, 0, tuple(self.zst(self.T[f[1]]) for f in t.d["variants"][0]["fields"]))
        if t.k == "adt" and t.d["kind"] == "enum":
            vs = self.variants(t)
            if len(vs) == 1:
                return Agg(t, vs[0], tuple(self.zst(self.T[f[1]]) for f in t.d["variants"][vs[0]]["fields"]))
        if t.k == "closure":
            return Agg(t, 0, tuple(self.zst(self.T[x]) for x in t.d["upvars"]))
        if t.k == "array":
            return Seq(()) if not t.d["len"] else mkseq([Z(self.zst(self.T[t.d["elem"]]), C(64, t.d["len"]))])
        return Agg(t, 0, ())

    # -------------------------------------------------------------- constants
    def const(self, st, o):
        t = self.T[o["ty"]]
        if "fn" in o:
            return FnV(FnConst(o["fn"]))
        if "a" not in o:
            return self.zst(t)
        a = o["a"]
        return self.decode(st, t, a["bytes"], 0, {x[0]: x[1] for x in a["ptrs"]})

    def size_of(self, t):
        return t.d.get("sz")

    def alloc_cell(self, st, aid, t):
        """Cell of the constant allocation with the contents of the type."""
        a = self.db.allocs.get(aid)
        if a is None:
            raise Unsupported("unknown allocation")
        if a["k"] == "static":
            cell = ("static", aid)
            if cell not in st.cells:
                st.cells[cell] = Nat("static", (a.get("name", str(aid)),))
            return cell
        if a["k"] == "fn":
            return None
        cell = ("alloc", aid, t.id)
        if cell not in st.cells:
            m = a["a"]
            ptrs = {x[0]: x[1] for x in m["ptrs"]}
            if t.k in ("slice", "str"):
                ety = self.u8 if t.k == "str" else self.T[t.d["elem"]]
                n = self.size_of(ety)
                if n is None or n == 0:
                    raise Unsupported(f"constant slice of {ety.s}")
                k = len(m["bytes"]) // 2 // n
                st.cells[cell] = mkseq([B(self.decode(st, ety, m["bytes"], i * n, ptrs)) for i in range(k)])
            else:
                st.cells[cell] = self.decode(st, t, m["bytes"], 0, ptrs)
        return cell

    def decode(self, st, t, hx, off, ptrs):
        def num(o, n):
            s = hx[2 * o : 2 * (o + n)]
            if len(s) < 2 * n or "_" in s:
                raise Unsupported("uninitialised constant")
            return int.from_bytes(bytes.fromhex(s), "little")

        k = t.k
        it = self.inner(t)
        if it is not t:
            return self.decode(st, it, hx, off, ptrs)
        if k in ("bool", "int", "uint", "char", "float"):
            n = max(1, self.tw(t) // 8)
            return C(self.tw(t), num(off, n))
        if k in ("ref", "ptr") or (k == "adt" and t.d["name"] == "std::boxed::Box"):
            to = self.pointee(t)
            if off in ptrs:
                if to.k == "fnptr" or to.k == "dyn":
                    return Nat("dynconst", (ptrs[off],))
                cell = self.alloc_cell(st, ptrs[off], to)
                base = num(off, 8)
                if to.k in ("slice", "str"):
                    return Fat(cell, (), C(64, base), C(64, num(off + 8, 8)))
                if base:
                    raise Unsupported("pointer inside of a constant")
                return Ref(cell, ())
            # Dangling
            if to.k in ("slice", "str"):
                n = num(off + 8, 8)
                if n == 0:
                    cell = ("empty",)
                    st.cells[cell] = Seq(())
                    return Fat(cell, (), ZERO, ZERO)
                raise Unsupported("dangling slice")
            if num(off, 8) == 0:
                return Nat("null", ())
            cell = ("dangling", t.id)
            if cell not in st.cells:
                st.cells[cell] = self.zst(to) if self.is_zst(to) else (self.decode(st, to, "", 0, {}) if to.k == "array" and to.d["len"] == 0 else Lazy(to, ("unk", "dangling", t.id)))
            return Ref(cell, ())
        if k == "fnptr":
            if off in ptrs:
                a = self.db.allocs[ptrs[off]]
                return FnV(FnConst(a))
            raise Unsupported("function pointer constant")
        if k == "array":
            e = self.T[t.d["elem"]]
            n = self.size_of(e)
            if t.d["len"] and n is None:
                raise Unsupported(f"constant {t.s}")
            return mkseq([B(self.decode(st, e, hx, off + i * n, ptrs)) for i in range(t.d["len"])])
        if self.is_zst(t):
            return self.zst(t)
        if k == "tuple":
            return self.decode_fields(st, t, [self.T[x] for x in t.d["elems"]], hx, off, ptrs)
        if k == "adt":
            if t.d["name"] == "std::vec::Vec" or t.d["name"] == "std::string::String":
                return VecV(Seq(()))
            if t.d["kind"] == "struct":
                return self.decode_fields(st, t, [self.T[f[1]] for f in t.d["variants"][0]["fields"]], hx, off, ptrs)
            if t.d["kind"] == "enum":
                return self.decode_enum(st, t, hx, off, ptrs)
        raise Unsupported(f"constant {t.s} {hx[:64]}")

    def decode_fields(self, st, t, fs, hx, off, ptrs, var=0, offs=None):
        offs = t.d.get("off") if offs is None else offs
        if offs is None:
            raise Unsupported(f"layout of {t.s}")
        return Agg(t, var, tuple(self.zst(f) if self.is_zst(f) else self.decode(st, f, hx, off + o, ptrs) for f, o in zip(fs, offs)))

    def decode_enum(self, st, t, hx, off, ptrs):
        vs = t.d["variants"]
        lay = t.d.get("lay")
        if lay is None:
            i = t.d.get("single")
            if i is None:
                raise Unsupported(f"layout of {t.s}")
            return self.decode_fields(st, t, [self.T[f[1]] for f in vs[i]["fields"]], hx, off, ptrs, i)
        to, ts = off + lay["to"], lay["ts"]
        if to in ptrs:
            tag = None
        else:
            b = hx[2 * to : 2 * (to + ts)]
            if "_" in b:
                raise Unsupported("uninitialised constant")
            tag = int.from_bytes(bytes.fromhex(b), "little")
        if lay["enc"] == "direct":
            m = (1 << (8 * ts)) - 1
            i = next((i for i, v in enumerate(vs) if tag is not None and int(v["discr"]) & m == tag), None)
        else:
            u, lo, hi, start = lay["enc"]
            i = u
            if tag is not None:
                k = (tag - int(start)) & ((1 << (8 * ts)) - 1)
                if k <= hi - lo:
                    i = lo + k
        if i is None:
            raise Unsupported(f"constant {t.s}")
        return self.decode_fields(st, t, [self.T[f[1]] for f in vs[i]["fields"]], hx, off, ptrs, i, lay["vs"][i])

    # ---------------------------------------------------------------- rvalues
    def discriminant(self, st, loc):
        if st.cells.get(loc.cell) is None and self.is_zst(loc.ty):
            v = self.zst(loc.ty)
            return int(v.ty.d["variants"][v.v]["discr"]) if v.ty is not None and v.ty.k == "adt" else 0
        v = self.get(st, loc.cell, loc.path)
        v = self.force(st, loc.cell, loc.path, v)
        if v.__class__ is Agg:
            t = v.ty
            if t is not None and t.k == "adt" and t.d["kind"] == "enum":
                return int(t.d["variants"][v.v]["discr"])
            return 0
        raise Unsupported(f"discriminant of {str(v)[:60]}")

    def rvalue(self, st, fid, fn, r, dty):
        k = r[0]
        if k == "use":
            return self.operand(st, fid, fn, r[1])
        if k == "ref" or k == "addr":
            loc = self.place(st, fid, fn, r[1])
            return self.mkref(st, loc)
        if k == "agg":
            kk = r[1]
            vals = [self.operand(st, fid, fn, x) for x in r[2]]
            a = kk["k"]
            if a == "array":
                return mkseq([B(x) for x in vals])
            if a == "tuple":
                return Agg(dty, 0, tuple(vals))
            if a == "adt":
                t = self.T[kk["ty"]]
                if self.transparent(t):
                    return vals[0]
                if kk.get("f") is not None:
                    return vals[0]
                return Agg(t, kk["v"], tuple(vals))
            if a == "closure":
                return Agg(self.T[kk["ty"]], 0, tuple(vals))
            if a == "rawptr":
                p, m = vals
                if p.__class__ is Fat:
                    return Fat(p.cell, p.path, p.off, m)
                if isinstance(m, Agg) and not m.f:
                    return p
                f = self.range_of(st, p, m)
                if f is not None:
                    return f
                if p.__class__ is Ref:
                    return Fat(p.cell, p.path, ZERO, m)
                raise Unsupported("raw pointer")
            raise Unsupported(f"aggregate {a}")
        if k == "bin":
            a = self.operand(st, fid, fn, r[2])
            b = self.operand(st, fid, fn, r[3])
            return self.binop(st, r[1], a, b, self.opty(fn, r[2]), dty)
        if k == "cbin":
            a = self.operand(st, fid, fn, r[2])
            b = self.operand(st, fid, fn, r[3])
            ty = self.opty(fn, r[2])
            v = self.binop(st, r[1], a, b, ty, None)
            return Agg(dty, 0, (v, self.overflows(st, r[1], a, b, v, ty)))
        if k == "un":
            if r[1] == "PtrMetadata":
                v = self.operand(st, fid, fn, r[2])
                if v.__class__ is Fat:
                    return v.len
                return UNIT
            v = self.operand(st, fid, fn, r[2])
            if r[1] == "Not":
                return T.not_(v)
            if r[1] == "Neg":
                ty = self.opty(fn, r[2])
                if ty.k == "float":
                    return T.op("fneg", v.w, v)
                return T.neg(v)
            raise Unsupported(f"unary {r[1]}")
        if k == "cast":
            return self.cast(st, r[1], self.operand(st, fid, fn, r[2]), self.T[r[3]], self.T[r[4]] if r[4] is not None else None)
        if k == "discr":
            loc = self.place(st, fid, fn, r[1])
            if loc.ty.k == "adt" and loc.ty.d["kind"] != "enum":
                return C(self.tw(dty), 0)
            return C(self.tw(dty), self.discriminant(st, loc))
        if k == "len":
            loc = self.place(st, fid, fn, r[1])
            return loc.len if loc.off is not None else C(64, loc.ty.d["len"])
        if k == "repeat":
            v = self.operand(st, fid, fn, r[1])
            if r[2] is None:
                raise Unsupported("repeat")
            return mkseq([Z(v, C(64, r[2]))])
        raise Unsupported(f"rvalue {k}")

    def opty(self, fn, o):
        if o["o"] == "const":
            return self.T[o["ty"]]
        if o["o"] == "rtc":
            return self.bool
        p = o["p"]
        t = fn.locals[p[0]]
        var = 0
        for e in p[1]:
            if e[0] == "*":
                t = self.pointee(t)
            elif e[0] == "f":
                t = self.T[e[2]] if len(e) > 2 and e[2] is not None else self.ftype(t, e[1], var)
                var = 0
            elif e[0] == "d":
                var = e[1]
            elif e[0] in ("i", "ci"):
                t = self.T[t.d["elem"]]
        return t

    def mkref(self, st, loc):
        if loc.off is not None:
            return Fat(loc.cell, loc.path, loc.off, loc.len)
        if loc.ty.k in ("slice", "str"):
            v = self.force(st, loc.cell, loc.path, self.get(st, loc.cell, loc.path))
            if v.__class__ is Seq:
                return Fat(loc.cell, loc.path, ZERO, seq_len(v))
            if v.__class__ is Nat:
                return v
            raise Unsupported("reference to unsized")
        return Ref(loc.cell, loc.path)

    def ptr_eq(self, st, a, b):
        if a == b:
            return TRUE
        for x, y in ((a, b), (b, a)):
            if x.__class__ is Nat and x.kind == "null":
                return boolc(y.__class__ is Nat and y.kind == "null")
        if a.__class__ is Fat and b.__class__ is Fat:
            if a.cell == b.cell and a.path == b.path:
                return T.and_(T.eq(a.off, b.off), T.eq(a.len, b.len))
        if a.__class__ is Ref and b.__class__ is Ref and a.cell == b.cell:
            pa, pb = a.path, b.path
            ea = pa[-1][1] if pa and pa[-1].__class__ is tuple and pa[-1][0] == "e" else None
            eb = pb[-1][1] if pb and pb[-1].__class__ is tuple and pb[-1][0] == "e" else None
            if ea is not None and eb is not None and pa[:-1] == pb[:-1]:
                return T.eq(ea, eb)
            if ea is not None and pa[:-1] == pb:
                return T.eq(ea, ZERO)
            if eb is not None and pb[:-1] == pa:
                return T.eq(eb, ZERO)
        if a.__class__ is Ref and b.__class__ is Ref and a.cell != b.cell:
            return FALSE
        raise Unsupported("comparison of pointers")

    def binop(self, st, op, a, b, ty, dty):
        if not isinstance(a, Term) or not isinstance(b, Term):
            if op in ("Eq", "Ne"):
                if a.__class__ is FnV or a.__class__ is Agg:
                    e = boolc(a == b)
                else:
                    e = self.ptr_eq(st, a, b)
                return e if op == "Eq" else T.not_(e)
            if op == "Offset":
                return self.offset(st, a, b)
            if op in ("Lt", "Le", "Gt", "Ge") and a.__class__ is Ref and b.__class__ is Ref and a.path and b.path and a.cell == b.cell and a.path[:-1] == b.path[:-1]:
                x, y = a.path[-1][1], b.path[-1][1]
                return {"Lt": lambda: T.ult(x, y), "Le": lambda: T.ule(x, y), "Gt": lambda: T.ult(y, x), "Ge": lambda: T.ule(y, x)}[op]()
            raise Unsupported(f"{op} of {str(a)[:40]}")
        if ty.k == "float":
            n = {"Add": "fadd", "Sub": "fsub", "Mul": "fmul", "Div": "fdiv", "Rem": "frem"}.get(op)
            if n:
                return T.op(n, a.w, a, b)
            n = {"Eq": "feq", "Lt": "flt", "Le": "fle"}.get(op)
            if n:
                return T.op(n, 1, a, b)
            if op == "Gt":
                return T.op("flt", 1, b, a)
            if op == "Ge":
                return T.op("fle", 1, b, a)
            if op == "Ne":
                return T.not_(T.op("feq", 1, a, b))
            raise Unsupported(f"float {op}")
        signed = ty.k == "int"
        if op.endswith("Unchecked"):
            op = op[:-9]
        if op == "Add":
            return T.add(a, b)
        if op == "Sub":
            return T.sub(a, b)
        if op == "Mul":
            return T.mul(a, b)
        if op in ("Div", "Rem"):
            if st.decide(T.eq(b, C(b.w, 0))) is not False:
                raise NeedFork(T.eq(b, C(b.w, 0))) if st.decide(T.eq(b, C(b.w, 0))) is None else Diverge()
            if signed:
                if st.srange(a)[0] >= 0 and st.srange(b)[0] >= 0:
                    return (T.udiv if op == "Div" else T.urem)(a, b)
                if op == "Div" and b.op == "c" and a.op != "c":
                    # Power of two
                    return T.sdiv(a, b)
                return (T.sdiv if op == "Div" else T.srem)(a, b)
            return (T.udiv if op == "Div" else T.urem)(a, b)
        if op == "BitAnd":
            return T.and_(a, b)
        if op == "BitOr":
            return T.or_(a, b)
        if op == "BitXor":
            return T.xor(a, b)
        if op in ("Shl", "Shr"):
            m = b
            if m.op != "c":
                n = st.norm(m)
                if n.op == "c":
                    m = n
            if m.op == "c":
                k = m.a & (a.w - 1)
                if op == "Shl":
                    return T.shl(a, k)
                return T.ashr(a, k) if signed else T.lshr(a, k)
            # A few possible distances: one partition for each
            lo, hi = st.urange(m)
            if hi - lo < 64:
                raise NeedFork(T.eq(m, C(m.w, lo)))
            return T.op("shl" if op == "Shl" else ("ashr" if signed else "lshr"), a.w, a, m)
        if op == "Eq":
            return T.eq(a, b)
        if op == "Ne":
            return T.ne(a, b)
        lt = T.slt if signed else T.ult
        if op == "Lt":
            return lt(a, b)
        if op == "Gt":
            return lt(b, a)
        if op == "Le":
            return T.not_(lt(b, a))
        if op == "Ge":
            return T.not_(lt(a, b))
        if op == "Cmp":
            ord_ = dty
            c = lt(a, b)
            d = st.decide(c)
            if d is None:
                raise NeedFork(c)
            if d:
                return Agg(ord_, self.vidx(ord_, "Less"), ())
            c = T.eq(a, b)
            d = st.decide(c)
            if d is None:
                raise NeedFork(c)
            return Agg(ord_, self.vidx(ord_, "Equal" if d else "Greater"), ())
        raise Unsupported(f"operator {op}")

    def overflows(self, st, op, a, b, v, ty):
        w = a.w
        if ty.k == "int":
            x, y = st.srange(a), st.srange(b)
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        else:
            x, y = st.urange(a), st.urange(b)
            lo, hi = 0, (1 << w) - 1
        if op == "Add":
            r = (x[0] + y[0], x[1] + y[1])
        elif op == "Sub":
            r = (x[0] - y[1], x[1] - y[0])
        elif op == "Mul":
            p = [i * j for i in x for j in y]
            r = (min(p), max(p))
        else:
            return V(1, ("unk", "ovf", next(self.unk)))
        if r[0] >= lo and r[1] <= hi:
            return FALSE
        if r[1] < lo or r[0] > hi:
            return TRUE
        if ty.k == "uint":
            if op == "Add":
                return T.ult(v, a)
            if op == "Sub":
                return T.ult(a, b)
            if op == "Mul" and b.op == "c" and b.a:
                return T.ult(C(w, hi // b.a), a)
            if op == "Mul" and a.op == "c" and a.a:
                return T.ult(C(w, hi // a.a), b)
        else:
            z = C(w, 0)
            if op == "Add" and b.op == "c":
                return T.slt(v, a) if T.scv(b) >= 0 else T.slt(a, v)
            if op == "Sub" and b.op == "c":
                return T.slt(a, v) if T.scv(b) >= 0 else T.slt(v, a)
        return T.op("ovf_" + op + ("s" if ty.k == "int" else "u"), 1, a, b)

    def offset(self, st, p, n):
        if n.w < 64:
            n = T.sext(n, 64)
        if p.__class__ is Ref:
            if p.path and p.path[-1].__class__ is tuple and p.path[-1][0] == "e":
                return Ref(p.cell, p.path[:-1] + (("e", T.add(p.path[-1][1], n)),))
            if n is ZERO:
                return p
            # A single element or an array without the index
            return Ref(p.cell, p.path + (("e", n),))
        if p.__class__ is Nat:
            return p
        raise Unsupported("pointer arithmetic")

    def cast(self, st, kind, v, to, frm):
        if kind == "IntToInt":
            w = self.tw(to)
            if v.__class__ is not Term:
                if v.__class__ is Agg and v.ty is not None and v.ty.k == "adt" and v.ty.d["kind"] == "enum":
                    return C(w, int(v.ty.d["variants"][v.v]["discr"]))
                raise Unsupported("integer cast")
            if frm is not None and frm.k == "int":
                return T.sext(v, w)
            return T.zext(v, w)
        if kind == "Transmute" or kind == "BoxDerefTransmute":
            return self.transmute(st, v, to, frm)
        if kind.startswith("PointerCoercion(Unsize"):
            tp = self.pointee(to)
            if tp.k == "slice" and v.__class__ is Ref:
                if v.path and v.path[-1].__class__ is tuple and v.path[-1][0] == "r":
                    return Fat(v.cell, v.path[:-1], v.path[-1][1], v.path[-1][2])
                ft = self.pointee(frm)
                return Fat(v.cell, v.path, ZERO, C(64, ft.d["len"]))
            if tp.k == "dyn" and v.__class__ is Ref:
                # What is behind the trait object
                st.cells[("behind", v.cell, v.path)] = Nat("behind", (), self.pointee(frm).id)
            return v
        if kind.startswith("PtrToPtr") or kind == "FnPtrToPtr":
            tp = self.inner(self.pointee(to))
            fp = self.inner(self.pointee(frm))
            return self.ptr_cast(st, v, tp, fp)
        if kind.startswith("PointerCoercion"):
            return v
        if kind == "PointerExposeAddress":
            if v.__class__ is Fat:
                return self.address(v.cell, v.path, v.off)
            if v.__class__ is Ref:
                if v.path and v.path[-1][0] == "e":
                    return self.address(v.cell, v.path[:-1], v.path[-1][1])
                return self.address(v.cell, v.path, ZERO)
            return V(64, ("unk", "addr", next(self.unk)))
        if kind == "IntToFloat":
            return T.op("itof" if frm.k == "int" else "utof", self.tw(to), v)
        if kind == "FloatToInt":
            return T.op("ftoi" if to.k == "int" else "ftou", self.tw(to), v)
        if kind == "FloatToFloat":
            return T.op("ftof", self.tw(to), v)
        raise Unsupported(f"cast {kind}")

    def address(self, cell, path, off):
        """Address of an octet of the object."""
        while path and path[-1] == ("s",):
            path = path[:-1]
        return T.add(V(64, ("addr", cell, path)), off)

    def ptr_cast(self, st, v, tp, fp):
        if v.__class__ is Fat:
            if tp.k in ("slice", "str", "dyn"):
                return v
            ety = self.inner(self.T[fp.d["elem"]]) if fp.k == "slice" else self.u8
            if tp.k == "array":
                return Ref(v.cell, v.path + (("r", v.off, C(64, tp.d["len"])),))
            return Ref(v.cell, v.path + (("e", v.off),))
        if v.__class__ is Ref:
            if fp.k == "array" and tp.k != "array":
                e = self.inner(self.T[fp.d["elem"]])
                if e.s == tp.s or e.k == tp.k:
                    if v.path and v.path[-1].__class__ is tuple and v.path[-1][0] == "r":
                        return Ref(v.cell, v.path[:-1] + (("e", v.path[-1][1]),))
                    return Ref(v.cell, v.path + (("e", ZERO),))
            if tp.k == "array" and fp.k != "array" and v.path and v.path[-1].__class__ is tuple and v.path[-1][0] == "e":
                return Ref(v.cell, v.path[:-1] + (("r", v.path[-1][1], C(64, tp.d["len"])),))
            return v
        return v

    def transmute(self, st, v, to, frm):
        ti = self.inner(to)
        if isinstance(v, Term):
            w = self.tw(ti)
            if w == v.w:
                return v
            if w is not None and ti.k == "bool":
                return T.trunc(v, 1)
            if w is not None and v.w == 1:
                return T.zext(v, w)
            if ti.k == "array":
                e = self.T[ti.d["elem"]]
                if self.tw(e) == 8:
                    return mkseq([B(x) for x in int_bytes(v)])
            if ti.k == "adt" and ti.d["kind"] == "struct":
                fs = [f for f in ti.d["variants"][0]["fields"]]
                out = []
                for f in fs:
                    ft = self.T[f[1]]
                    out.append(self.zst(ft) if self.is_zst(ft) else self.transmute(st, v, ft, frm))
                return Agg(ti, 0, tuple(out))
            if ti.k == "adt" and ti.d["kind"] == "enum" and all(not x["fields"] for x in ti.d["variants"]):
                vs = ti.d["variants"]
                for i, x in enumerate(vs):
                    c = T.eq(v, C(v.w, int(x["discr"])))
                    d = st.decide(c)
                    if d:
                        return Agg(ti, i, ())
                    if d is None:
                        raise NeedFork(c)
            if ti.k == "adt" and ti.d["name"] == "std::option::Option" and len(ti.d["variants"]) == 2:
                # Zero is None, anything else is the number
                c = T.eq(v, C(v.w, 0))
                d = st.decide(c)
                if d is None:
                    raise NeedFork(c)
                i = self.vidx(ti, "None" if d else "Some")
                return Agg(ti, i, () if d else (self.transmute(st, v, self.T[ti.d["variants"][i]["fields"][0][1]], None),))
            raise Unsupported(f"transmute to {to.s}")
        if v.__class__ in (Ref, Fat):
            try:
                if ti.k in ("ref", "ptr") and frm is not None:
                    fi = self.inner(frm)
                    if fi.k in ("ref", "ptr"):
                        return self.ptr_cast(st, v, self.inner(self.pointee(ti)), self.inner(self.pointee(fi)))
            except Unsupported:
                pass
            if ti.k == "uint":
                return V(64, ("unk", "addr", next(self.unk)))
            if ti.k == "adt" and ti.d["kind"] == "enum" and ti.d["name"] == "std::option::Option":
                return Agg(ti, 1, (v,))
            return v
        if v.__class__ is Seq:
            w = self.tw(ti)
            if w is not None:
                bs = []
                for i in range(w // 8):
                    bs.append(self.elem(st, v, C(64, i)))
                return bytes_int(bs)
            return v
        if v.__class__ is Agg:
            if ti is v.ty:
                return v
            if not v.f and ti.d.get("sz") and (v.ty is None or v.ty.k == "tuple"):
                # MaybeUninit::uninit()
                return self.fresh(st, ti, ("uninit", next(self.ids)))
            nz = [x for x in v.f if not (x.__class__ is Agg and not x.f)]
            if len(nz) == 1 and v.ty is not None and (v.ty.k != "adt" or v.ty.d["kind"] == "struct"):
                return self.transmute(st, nz[0], to, None)
            if v.ty is not None and v.ty.k == "adt" and v.ty.d["kind"] == "enum" and not v.f:
                w = self.tw(ti)
                if w is not None:
                    return C(w, int(v.ty.d["variants"][v.v]["discr"]))
            # Same shape, other lifetimes
            if ti.k == "adt" and v.ty.k == "adt" and ti.d["name"] == v.ty.d["name"]:
                return Agg(ti, v.v, v.f)
            if ti.k == "tuple":
                return Agg(ti, 0, v.f)
            raise Unsupported(f"transmute {v.ty.s if v.ty else ''} to {to.s}")
        if v.__class__ is Lazy:
            if self.inner(v.ty).s == ti.s:
                return Lazy(ti, v.name)
            return self.transmute(st, self.expand(st, v), to, frm)
        return v

    # ------------------------------------------------------------- statements
    def assign(self, st, fid, fn, p, val):
        if not p[1]:
            st.cells[("f", fid, p[0])] = val
            return
        loc = self.place(st, fid, fn, p)
        if loc.off is not None:
            raise Unsupported("write of unsized")
        # Creating an aggregate field by field
        self.set(st, loc.cell, loc.path, val)

    def dest_ty(self, fn, p):
        if not p[1]:
            return fn.locals[p[0]]
        return self.opty(fn, {"o": "copy", "p": p})

    def stmt(self, st, fid, fn, s):
        k = s[0]
        if k == "=":
            dty = self.dest_ty(fn, s[1])
            v = self.rvalue(st, fid, fn, s[2], dty)
            self.assign(st, fid, fn, s[1], v)
        elif k == "setd":
            loc = self.place(st, fid, fn, s[1])
            t = loc.ty
            v = st.cells.get(loc.cell)
            try:
                v = self.get(st, loc.cell, loc.path)
            except Unsupported:
                v = None
            f = v.f if v.__class__ is Agg else ()
            self.set(st, loc.cell, loc.path, Agg(t, s[2], f))
        elif k == "assume":
            c = self.operand(st, fid, fn, s[1])
            d = st.decide(c)
            if d is None:
                st.assume(c, True)
        elif k == "copyno":
            src = self.operand(st, fid, fn, s[1])
            dst = self.operand(st, fid, fn, s[2])
            n = self.operand(st, fid, fn, s[3])
            self.copy(st, src, dst, n)
        else:
            raise Unsupported(f"statement {k}")

    def copy(self, st, src, dst, n):
        if st.decide(T.eq(n, ZERO)):
            return
        a, b = self.range_of(st, src, n), self.range_of(st, dst, n)
        if a is not None and b is not None:
            self.bounds(st, a, "read")
            self.bounds(st, b, "write")
            self.slice_set(st, b, self.slice_get(st, a).p)
            return
        if n is ONE:
            v = self.get(st, src.cell, src.path) if src.__class__ is Ref else None
            if v is not None and dst.__class__ is Ref:
                self.set(st, dst.cell, dst.path, v)
                return
        if a is not None and dst.__class__ is Ref:
            self.bounds(st, a, "read")
            self.slice_set(st, Fat(dst.cell, dst.path, ZERO, n), self.slice_get(st, a).p)
            return
        if b is not None and src.__class__ is Ref:
            self.bounds(st, b, "write")
            self.slice_set(st, b, self.slice_get(st, Fat(src.cell, src.path, ZERO, n)).p)
            return
        raise Unsupported("copy_nonoverlapping")

    def bounds(self, st, fat, what):
        """Raw copies must stay in the object."""
        v = self.get(st, fat.cell, fat.path)
        v = self.force(st, fat.cell, fat.path, v)
        if v.__class__ is VecV:
            return  # spare capacity
        if v.__class__ is not Seq:
            return
        n = seq_len(v)
        end = T.add(fat.off, fat.len)
        c = T.and_(T.ule(fat.off, n), T.ule(fat.len, T.sub(n, fat.off)))
        self.obligations += 1
        d = st.decide(T.ule(fat.off, n))
        e = st.decide(T.ule(fat.len, T.sub(n, fat.off))) if d else None
        if d and e:
            return
        if d is None:
            raise NeedFork(T.ule(fat.off, n))
        if d and e is None:
            raise NeedFork(T.ule(fat.len, T.sub(n, fat.off)))
        raise PanicX(f"raw {what} out of bounds")

    # ------------------------------------------------------------------ calls
    def closure_fn(self, ty):
        k = ty.d.get("inst")
        return self.db.fns.get(k)

    def call_value(self, st, f, args, dty=None):
        """Call a closure or function value."""
        if f.__class__ is Agg and f.ty is not None and f.ty.k == "closure":
            fn = self.closure_fn(f.ty)
            if fn is None:
                raise Unsupported("closure without body")
            st2 = st
            if fn.locals[1].k == "ref":
                cell = ("clo", next(self.ids))
                st.cells[cell] = f
                return self.run(st, fn, [Ref(cell, ())] + list(args))
            return self.run(st, fn, [f] + list(args))
        if f.__class__ is Ref:
            v = self.get(st, f.cell, f.path)
            if v.__class__ is Agg and v.ty is not None and v.ty.k == "closure":
                fn = self.closure_fn(v.ty)
                if fn.locals[1].k == "ref":
                    return self.run(st, fn, [f] + list(args))
                return self.run(st, fn, [v] + list(args))
            return self.call_value(st, v, args, dty)
        if f.__class__ is FnV:
            c = f.f
            d = c.d if isinstance(c, FnConst) else c.d.get("fn")
            if d is not None:
                return self.call_const(st, d, args, dty)
        raise Unsupported("call of an unknown value")

    def call_const(self, st, d, args, dty=None):
        """Call a function item."""
        fn = self.db.fns.get(d.get("inst"))
        c = Call()
        c.fn, c.ln, c.file, c.f, c.args, c.dty = (self.stack[-1] if self.stack else fn), 0, None, d, list(args), dty
        c.aty = [None] * len(c.args)
        c.name = d.get("name") or "?"
        c.defn = d.get("def") or c.name
        c.rname = d.get("rname") or c.defn
        c.targs = d.get("rargs") or d.get("args") or []
        if fn is not None:
            c.aty = [fn.locals[i + 1] for i in range(min(fn.argc, len(c.args)))] + [None] * max(0, len(c.args) - fn.argc)
            if c.dty is None:
                c.dty = fn.locals[0]
        return self.invoke(st, c, d)

    def run(self, st, fn, args):
        """Interpret the function. Returns [(state, value)]."""
        if len(self.stack) > 180:
            raise Unsupported("recursion")
        fid = next(self.ids)
        if fn.argc > len(args) and len(args) >= 1 and args[-1].__class__ is Agg:
            tup = args[-1]
            if len(tup.f) == fn.argc - len(args) + 1:
                args = list(args[:-1]) + list(tup.f)
        if fn.argc != len(args):
            if len(args) > fn.argc and all(self.is_unit(x) for x in args[fn.argc :]):
                args = args[: fn.argc]
            else:
                raise Unsupported(f"arguments of {fn.name}: {len(args)} for {fn.argc}")
        for i, a in enumerate(args):
            st.cells[("f", fid, i + 1)] = a
        self.visited[fn.key] = fn
        self.stack.append(fn)
        try:
            outs = []
            self._run(fn, fid, [(st, 0, 0, -1)], outs, None)
        finally:
            self.stack.pop()
        if self.on_return is not None:
            outs = self.on_return(self, fn, outs)
        return outs

    def is_unit(self, x):
        return x.__class__ is Agg and not x.f

    def clean(self, st, fid, fn):
        for i in range(len(fn.locals)):
            st.cells.pop(("f", fid, i), None)
        for k in [k for k in st.cnt if k[0] == fid]:
            del st.cnt[k]

    def _run(self, fn, fid, work, outs, probe):
        heads = fn.loop_heads()
        blocks = fn.blocks
        while work:
            st, bb, si, prev = work.pop()
            while True:
                try:
                    if si < 0:
                        si = 0  # The head is done
                    elif si == 0:
                        if probe is not None and bb not in probe[1]:
                            break  # Left the loop
                        if bb in heads:
                            r = self.head(fn, fid, st, bb, prev, heads[bb], probe)
                            if r is None:
                                break
                            st = r
                    b = blocks[bb]
                    ss = b["s"]
                    self.blocks.add((fn.key, bb))
                    while si < len(ss):
                        self.steps += 1
                        if self.steps > self.max_steps:
                            raise Budget()
                        self.stmt(st, fid, fn, ss[si])
                        si += 1
                    nxt = self.term(st, fid, fn, bb, b["t"], work, outs)
                    if nxt is None:
                        break
                    prev, bb, si = bb, nxt, 0
                    continue
                except NeedFork as e:
                    si0 = si if si > 0 else SKIPHEAD
                    for v in (False, True):
                        s2 = st.clone()
                        if s2.assume(e.cond, v):
                            work.append((s2, bb, si0, prev))
                    break
                except NeedVariant as e:
                    si0 = si if si > 0 else SKIPHEAD
                    for v in reversed(e.variants):
                        s2 = st.clone()
                        s2.cells[("variant", e.lazy.name)] = v
                        s2.path = (s2.path, e.lazy, v)
                        work.append((s2, bb, si0, prev))
                    break
                except PanicX as e:
                    self.panic(st, "bounds", e.msg, fn, bb, si)
                    break
                except Diverge:
                    break
                except Unsupported as e:
                    self.note_unsup(st, fn, bb, si, e)
                    break
                except RecursionError:
                    self.note_unsup(st, fn, bb, si, "recursion")
                    break

    def note_unsup(self, st, fn, bb, si, e):
        if self.quiet:
            self.quiet_unsup = True
            return
        self.unsup.append((fn.name, bb, str(e)))

    def panic(self, st, kind, msg, fn, bb, ln=None):
        if self.quiet:
            return
        self.panics.append(Panic(kind, msg, [f.name for f in self.stack] or [fn.name], st, ln))

    def term(self, st, fid, fn, bb, t, work, outs):
        k = t["t"]
        if k == "goto":
            return t["to"]
        if k == "return":
            v = st.cells.get(("f", fid, 0))
            if v is None:
                v = UNIT if self.is_zst(fn.locals[0]) else None
                if v is None:
                    raise Unsupported("no return value")
            self.clean(st, fid, fn)
            outs.append((st, v))
            if len(outs) > self.max_outs:
                raise Budget()
            return None
        if k == "switch":
            on = self.operand(st, fid, fn, t["on"])
            if not isinstance(on, Term):
                if on.__class__ is Agg:
                    raise Unsupported("switch on an aggregate")
                raise Unsupported("switch")
            live = []
            for val, to in t["br"]:
                c = T.eq(on, C(on.w, int(val)))
                d = st.decide(c)
                if d is True:
                    live.append((c, to))
                    break
                if d is None:
                    live.append((c, to))
            else:
                live.append((None, t["else"]))
            if len(live) == 1:
                return live[0][1]
            done = []
            first = None
            for c, to in live:
                s2 = st.clone()
                ok = True
                for d in done:
                    if not s2.assume(d, False):
                        ok = False
                        break
                if ok and c is not None:
                    ok = s2.assume(c, True)
                if ok:
                    work.append((s2, to, 0, bb))
                if c is not None:
                    done.append(c)
            return None
        if k == "call":
            return self.do_call(st, fid, fn, bb, t, work)
        if k == "drop":
            return self.do_drop(st, fid, fn, bb, t, work)
        if k == "assert":
            c = self.operand(st, fid, fn, t["cond"])
            if not t["exp"]:
                c = T.not_(c)
            self.obligations += 1
            d = st.decide(c)
            if d is True:
                return t["to"]
            if d is None:
                s2 = st.clone()
                if s2.assume(c, False):
                    self.panic(s2, t["msg"], t["msg"], fn, bb, t.get("ln"))
                if not st.assume(c, True):
                    return None
                return t["to"]
            self.panic(st, t["msg"], t["msg"], fn, bb, t.get("ln"))
            return None
        if k == "unreachable":
            return None
        if k in ("resume", "abort"):
            return None
        raise Unsupported(f"terminator {k}")

    def do_drop(self, st, fid, fn, bb, t, work):
        ty = self.T[t["ty"]] if t.get("ty") is not None else None
        f = self.drop_impl(ty) if ty is not None else None
        if f is not None:
            try:
                loc = self.place(st, fid, fn, t["p"])
                if loc.off is None:
                    self.get(st, loc.cell, loc.path)
            except Unsupported:
                return t["to"]
            res = self.run(st.clone(), f, [Ref(loc.cell, loc.path)])
            for s2, _ in res:
                work.append((s2, t["to"], 0, bb))
            return None
        return t["to"]

    def drop_impl(self, ty):
        """Local Drop implementation of the type."""
        if ty.k != "adt" or not ty.d["name"].startswith("gufo_snmp::"):
            return None
        want = f"<{ty.d['name']} as std::ops::Drop>::drop"
        for f in self.db.by_name.get(want, []):
            return f
        for f in self.db.fns.values():
            if f.local and f.name.endswith(" as std::ops::Drop>::drop") and ty.d["name"].split("::")[-1] in f.name.split(" as ")[0]:
                return f
        return None

    def do_call(self, st, fid, fn, bb, t, work):
        f = t["f"]
        c = Call()
        c.fn, c.ln, c.file = fn, t["ln"], t.get("file")
        c.f = f
        c.args = None
        args = []
        for o in t["args"]:
            args.append(self.operand(st, fid, fn, o))
        c.args = args
        c.aty = [self.T[x] if x is not None else None for x in t["aty"]]
        c.dty = self.dest_ty(fn, t["dst"])
        if "dyn" in f:
            g = self.operand(st, fid, fn, f["dyn"])
            if g.__class__ is FnV and isinstance(g.f, FnConst):
                f = dict(g.f.d)
                f.setdefault("name", str(f.get("name")))
                c.f = f
            else:
                c.name = c.defn = c.rname = "dyn"
                f = {"name": "dyn", "def": "dyn"}
        c.name = f.get("name") or "?"
        c.defn = f.get("def") or c.name
        c.rname = f.get("rname") or c.defn
        c.targs = f.get("rargs") or f.get("args") or []
        if f.get("kind") == "virtual":
            f = self.method_behind(st, c, f)
        res = self.invoke(st, c, f)
        if t["to"] is None:
            return None
        to = t["to"]
        out = []
        for s2, v in res:
            try:
                self.assign(s2, fid, fn, t["dst"], v)
            except NeedFork as e:
                for x in (False, True):
                    s3 = s2.clone()
                    if s3.assume(e.cond, x):
                        self.assign(s3, fid, fn, t["dst"], v)
                        out.append(s3)
                continue
            out.append(s2)
        if len(out) == 1 and out[0] is st:
            return to
        for s2 in out:
            work.append((s2, to, 0, bb))
        return None

    def method_behind(self, st, c, f):
        """The function a method of a trait object stands for."""
        a = c.args[0] if c.args else None
        t = st.cells.get(("behind", a.cell, a.path)) if a.__class__ is Ref else None
        if t.__class__ is not Nat or t.kind != "behind":
            return f
        ty = self.T[t.x]
        k = (c.rname, ty.id)
        if k not in self.methods:
            trait, _, m = c.rname.rpartition("::")
            end = f" as {trait}>::{m}"
            r = []
            for b in self.db.fns.values():
                if b.argc and (b.name.endswith(end) or b.defn == c.rname):
                    t = b.locals[1]
                    if t.k in ("ref", "ptr") and (self.pointee(t) is ty or _ageless(self.pointee(t).s) == _ageless(ty.s)):
                        r.append(b)
            self.methods[k] = r
        r = self.methods[k]
        if len(r) != 1:
            return f
        c.name, c.defn, c.rname = r[0].name, r[0].defn, r[0].defn
        return {"name": r[0].name, "def": r[0].defn, "inst": r[0].key}

    def native_for(self, c):
        k = (c.name, c.defn, c.rname)
        r = self.natcache.get(k, 0)
        if r == 0:
            r = []
            for rx, h in self.natives:
                if (rx.search(c.name) or rx.search(c.defn) or rx.search(c.rname)) and h not in r:
                    r.append(h)
            self.natcache[k] = r
        return r

    def override_for(self, c):
        for m, h in self.overrides:
            if m(c):
                return h
        return None

    def invoke(self, st, c, f):
        h = self.override_for(c)
        for h in ([h] if h is not None else []) + self.native_for(c):
            snap = st.clone()
            try:
                r = h(self, st, c)
            except (NeedFork, NeedVariant):
                # Restore what the model changed
                for a in State.__slots__:
                    setattr(st, a, getattr(snap, a))
                raise
            if r is NotImplemented:
                pass
            elif isinstance(r, list):
                return r
            else:
                return [(st, r)]
        body = self.db.fns.get(f.get("inst"))
        if body is not None:
            return self.run(st.clone(), body, c.args)
        # Constructor functions
        r = self.models.ctor(self, st, c)
        if r is not None:
            return [(st, r)]
        return self.havoc(st, c)

    def havoc(self, st, c):
        if not self.quiet:
            self.unknown_calls[c.rname] = self.unknown_calls.get(c.rname, 0) + 1
        n = next(self.unk)
        name = ("unk", c.rname, n)
        for a, t in zip(c.args, c.aty):
            if a.__class__ is Ref and t is not None and t.k in ("ref", "ptr") and t.d.get("mut"):
                to = self.pointee(t)
                try:
                    self.set(st, a.cell, a.path, self.fresh(st, to, name + ("arg",)))
                except Unsupported:
                    pass
            elif a.__class__ is Fat and t is not None and t.d.get("mut"):
                self.slice_set(st, a, [S(name + ("arg",), ZERO, a.len, None)])
        st.event("unknown", c.rname)
        return [(st, self.fresh(st, c.dty, name))]

    # ------------------------------------------------------------------ loops
    def head(self, fn, fid, st, bb, prev, body, probe):
        """Visit of a loop head. Returns the state to go on with, or None."""
        if prev == -2:
            return st
        key = (fid, bb)
        if probe is not None and bb == probe[0] and prev in body:
            probe[2].append(st)
            return None
        self.collect(st, fn, fid, bb)
        c = st.cnt.get(key)
        if c is None or prev not in body:
            st.cnt[key] = (0, st.path, 0, (st.cells.copy(),), None, st.clone())
            return st
        n, path, conc, snaps, mode, entry = c
        if mode == "final":
            return None  # Covered by the invariant
        if path is st.path:
            conc += 1
            if conc > self.max_conc:
                raise Unsupported("long loop")
            st.cnt[key] = (n, st.path, conc, snaps, None, entry)
            return st
        n += 1
        if not self.quiet and self.unchanged(snaps[-1], st.cells):
            self.stuck.setdefault((fn.name, bb), st.clone())
        k = self.loop_k.get(fn.name, self.K)
        st.cnt[key] = (n, st.path, conc, snaps[-3:] + (st.cells.copy(),), None, entry)
        if n <= k:
            return st
        if not self.join_loops or entry is None:
            return self.widen(fn, fid, st, bb, body, st, snaps[-1])
        # The invariant is stated over the facts known at the entry: it covers the other paths too
        memo = self.invs.setdefault((fid, bb, id(entry)), [])
        for _, w, cells, cand in memo:
            if w.covers(cells, st, cand):
                return None
        w0 = entry.clone()
        w0.ev = (w0.ev, ("loop", fn.name, bb))
        w0.nev = st.nev + 1
        w0.cnt = dict(st.cnt)
        r = self.widen(fn, fid, st, bb, body, w0, snaps[-1])
        memo.append((entry, self.last_inv[0], dict(r.cells), self.last_inv[1]))
        return r

    def unchanged(self, a, b):
        """The round has changed nothing the next one depends on."""
        for k, v in b.items():
            if k[0] != "variant" and a.get(k) != v:
                return False
        return True

    def collect(self, st, fn, fid, bb):
        """Forget the dead locals of the frame and what only they refer to."""
        live = fn.live_in(bb)
        cells = st.cells
        dead = {("f", fid, i) for i in range(len(fn.locals)) if i not in live and ("f", fid, i) in cells}
        if not dead:
            return
        # Temporaries may be still referred to
        todo = []
        for k, v in cells.items():
            if k not in dead:
                refs(v, todo)
        seen = set()
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            if k in dead:
                dead.discard(k)
                refs(cells[k], todo)
        for k in dead:
            del cells[k]

    def widen(self, fn, fid, st, bb, body, facts, prev):
        """The loop invariant which covers the states prev and st."""
        key = (fid, bb)
        snaps = st.cnt[key][3]
        w = Widener(self, st)
        base = facts.clone()
        cells = w.cells(prev, st.cells)
        if facts is not st:
            # What was found out about the values on the way is not known on the other paths
            for k in [k for k in cells if k[0] == "variant" and k not in facts.cells]:
                del cells[k]
        for _ in range(12):
            cand = w.candidates(st, snaps, fid)
            # Largest inductive subset
            while True:
                s0 = base.clone()
                s0.cells = dict(cells)
                s0.cnt[key] = (0, s0.path, 0, (), "probe", None)
                for f in cand:
                    f.assume(s0)
                back = []
                self.quiet += 1
                self.quiet_unsup = False
                bl, vis = None, None
                try:
                    self._run(fn, fid, [(s0.clone(), bb, SKIPHEAD, -2)], [], (bb, body, back))
                finally:
                    self.quiet -= 1
                if self.quiet_unsup and self.quiet == 0:
                    self.unsup.append((fn.name, bb, "loop body"))
                # Does the shape hold?
                changed = False
                for s1 in back:
                    if w.extend(cells, s1.cells, fid, fn):
                        changed = True
                if changed:
                    break
                drop = [f for f in cand if not all(f.holds(s1, w) for s1 in back)]
                if not drop:
                    break
                cand = [f for f in cand if f not in drop]
            if not changed:
                break
        else:
            raise Unsupported("loop invariant")
        # Termination: something gets strictly smaller or grows to a bound
        prog = None
        for x in w.vars:
            if back and all(w.decreases(s1, x) for s1 in back):
                prog = f"{x} decreases"
                break
        if prog is None:
            for f in cand:
                if isinstance(f, LeInv) and back and all(w.increases(s1, f.x) for s1 in back):
                    prog = f"{f.x} grows to {f.b}"
                    break
        self.last_inv = (w, cand)
        if not back:
            prog = "no back edge is feasible"
        k2 = (fn.name, bb)
        if not self.quiet:
            old = self.loops.get(k2, prog)
            self.loops[k2] = prog if old is not None else None
        s0.cnt[key] = (0, s0.path, 0, (), "final", None)
        return s0


def refs(v, out):
    """Cells the value refers to."""
    c = v.__class__
    if c is Ref or c is Fat:
        out.append(v.cell)
    elif c is Agg:
        for x in v.f:
            if x is not None and x.__class__ is not Term:
                refs(x, out)
    elif c is Seq:
        for p in v.p:
            if p.__class__ is B:
                if p.v.__class__ is not Term:
                    refs(p.v, out)
            elif p.__class__ is Z and p.val.__class__ is not Term:
                refs(p.val, out)
    elif c is VecV:
        refs(v.s, out)
    elif c is Nat:
        for x in v.a:
            if x.__class__ in (Ref, Fat, Agg, Seq, VecV, Nat):
                refs(x, out)
        if v.x.__class__ in (Ref, Fat, Agg, Seq, VecV, Nat):
            refs(v.x, out)


SKIPHEAD = -1


class Budget(Exception):
    pass


class FnConst(tuple):
    """Constant function."""

    def __new__(cls, d):
        o = tuple.__new__(cls, (d.get("inst"), d.get("name")))
        return o

    def __init__(self, d):
        self.d = d


class GeInv:
    def __init__(self, x, b):
        self.x, self.b = x, b

    def assume(self, st):
        st.assume(T.ule(self.b, self.x), True)

    def holds(self, st, w):
        return st.decide(T.ule(self.b, w.now(st, self.x))) is True

    def __repr__(self):
        return f"{self.x} >= {self.b}"


class LeInv:
    def __init__(self, x, b):
        self.x, self.b = x, b

    def assume(self, st):
        st.assume(T.ule(self.x, self.b), True)

    def holds(self, st, w):
        return st.decide(T.ule(w.now(st, self.x), w.now(st, self.b))) is True

    def __repr__(self):
        return f"{self.x} <= {self.b}"


class LtInv(LeInv):
    def assume(self, st):
        st.assume(T.ult(self.x, self.b), True)

    def holds(self, st, w):
        return st.decide(T.ult(w.now(st, self.x), w.now(st, self.b))) is True

    def __repr__(self):
        return f"{self.x} < {self.b}"


class SumInv:
    """x + k*y == c"""

    def __init__(self, x, y, k, c):
        self.x, self.y, self.k, self.c = x, y, k, c

    def assume(self, st):
        # Linear over exact integers
        cc, cd = st.math(self.c)
        d = {self.x: 1}
        d[self.y] = d.get(self.y, 0) + self.k
        for a, n in cd.items():
            d[a] = d.get(a, 0) - n
        st.addlin(-cc, d)
        st.addlin(cc, {a: -n for a, n in d.items()})

    def holds(self, st, w):
        a, b = st.math(w.now(st, self.x)), st.math(w.now(st, self.y))
        c = st.math(self.c)
        d = {}
        k = a[0] + self.k * b[0] - c[0]
        for x, n in a[1].items():
            d[x] = d.get(x, 0) + n
        for x, n in b[1].items():
            d[x] = d.get(x, 0) + self.k * n
        for x, n in c[1].items():
            d[x] = d.get(x, 0) - n
        d = {x: n for x, n in d.items() if n}
        return st.entails(k, d) and st.entails(-k, {x: -n for x, n in d.items()})

    def __repr__(self):
        return f"{self.x} + {self.k}*{self.y} == {self.c}"


class Widener:
    def __init__(self, I, st):
        self.I = I
        self.vars = {}  # fresh atom -> accessor (cell, path)
        self.st = st
        self.bounds = None

    def fresh(self, w, at, t2):
        n = next(self.I.wid)
        x = lenv(("wid", n)) if w == 64 and self.st.urange(t2)[1] <= MAXLEN and self._small(t2) else V(w, ("wid", n))
        self.vars[x] = at
        return x

    def _small(self, t):
        return False

    def cells(self, c1, c2):
        out = {}
        for k, v2 in c2.items():
            v1 = c1.get(k)
            if v1 is None or v1 == v2:
                out[k] = v2
            else:
                out[k] = self.val(v1, v2, (k,))
        return out

    def covers(self, cells, st, cand):
        """The invariant covers the state."""
        if any(k[0] != "f" and k not in st.cells for k in cells):
            return False
        c = {k: v for k, v in cells.items() if k in st.cells}
        try:
            if self.extend(c, st.cells, None, None):
                return False
            bad=[k for k in st.cells if k not in cells and k[0] not in ("f", "variant")]
            if bad:
                return False
            return all(f.holds(st, self) for f in cand)
        except Unsupported:
            return False

    def extend(self, cells, new, fid, fn):
        """Generalise the widened cells to cover the new ones."""
        ch = False
        for k, v in list(cells.items()):
            n = new.get(k)
            if n is None:
                if k[0] == "f" and k[1] == fid:
                    # Moved out or storage dead: not live at the head
                    pass
                continue
            g = self.cover(v, n, (k,))
            if g is not v:
                cells[k] = g
                ch = True
        return ch

    def cover(self, v, n, at):
        """v if it covers n, else something that does."""
        if v == n:
            return v
        if isinstance(v, Term) and v in self.vars and self.vars[v] == at and isinstance(n, Term):
            return v
        if v.__class__ is Lazy and v.name and v.name[0] == "wid":
            return v
        if v.__class__ is S and v.region and v.region[0] == "wid":
            return v
        c = v.__class__
        if c is n.__class__:
            if c is Agg and v.ty is n.ty and v.v == n.v and len(v.f) == len(n.f):
                f = []
                ch = False
                for i, (a, b) in enumerate(zip(v.f, n.f)):
                    if a is None or b is None:
                        f.append(None)
                        ch = ch or (a is not None)
                        continue
                    g = self.cover(a, b, at + (i,))
                    ch = ch or g is not a
                    f.append(g)
                return Agg(v.ty, v.v, tuple(f)) if ch else v
            if c is VecV:
                g = self.cover(v.s, n.s, at + (("s",),))
                return VecV(g) if g is not v.s else v
            if c is Seq:
                if self.seq_covers(v, n):
                    return v
            if c is Fat and v.cell == n.cell and v.path == n.path:
                o = self.cover(v.off, n.off, at + ("off",))
                if o in self.vars and T.add(n.off, n.len) is T.add(v.off, v.len):
                    l = T.sub(T.add(n.off, n.len), o)
                    return v if o is v.off and l is v.len else Fat(v.cell, v.path, o, l)
                l = self.cover(v.len, n.len, at + ("len",))
                return Fat(v.cell, v.path, o, l) if (o is not v.off or l is not v.len) else v
            if c is Ref and v.cell == n.cell and len(v.path) == len(n.path):
                p = self.path(v.path, n.path, at, self.cover)
                if p is not None:
                    return Ref(v.cell, p) if p != v.path else v
        return self.val(v, n, at)

    def path(self, p1, p2, at, f):
        out = []
        for i, (a, b) in enumerate(zip(p1, p2)):
            if a == b:
                out.append(a)
            elif a.__class__ is tuple and b.__class__ is tuple and a[0] == b[0] == "e":
                out.append(("e", f(a[1], b[1], at + (("p", i),))))
            else:
                return None
        return tuple(out)

    def seq_covers(self, v, n):
        """Common ends around a widened middle."""
        ws = [i for i, p in enumerate(v.p) if p.__class__ is S and p.region[0] == "wid"]
        if len(ws) != 1:
            return False
        i = ws[0]
        pre, post = v.p[:i], v.p[i + 1 :]
        if len(n.p) < len(pre) + len(post):
            return False
        return n.p[: len(pre)] == pre and (not post or n.p[-len(post) :] == post)

    def val(self, a, b, at):
        if a == b:
            return b
        if isinstance(a, Term) and isinstance(b, Term) and a.w == b.w:
            if b in self.vars and self.vars[b] == at:
                return b
            return self.fresh(b.w, at, b)
        ca, cb = a.__class__, b.__class__
        if ca is cb:
            if ca is Agg and a.ty is b.ty:
                if a.v == b.v and len(a.f) == len(b.f):
                    return Agg(a.ty, a.v, tuple(None if x is None or y is None else self.val(x, y, at + (i,)) for i, (x, y) in enumerate(zip(a.f, b.f))))
                if a.ty is not None:
                    return Lazy(a.ty, ("wid", next(self.I.wid)))
            if ca is Ref and a.cell == b.cell and len(a.path) == len(b.path):
                p = self.path(a.path, b.path, at, self.val)
                if p is not None:
                    return Ref(a.cell, p)
            if ca is Fat and a.cell == b.cell and a.path == b.path:
                end = T.add(b.off, b.len)
                if a.off is not b.off and T.add(a.off, a.len) is end:
                    # The end stays
                    o = self.val(a.off, b.off, at + ("off",))
                    return Fat(a.cell, a.path, o, T.sub(end, o))
                return Fat(a.cell, a.path, self.val(a.off, b.off, at + ("off",)), self.val(a.len, b.len, at + ("len",)))
            if ca is VecV:
                return VecV(self.val(a.s, b.s, at + (("s",),)))
            if ca is Seq:
                i = 0
                while i < len(a.p) and i < len(b.p) and a.p[i] == b.p[i]:
                    i += 1
                j = 0
                while j < len(a.p) - i and j < len(b.p) - i and a.p[-1 - j] == b.p[-1 - j]:
                    j += 1
                ety = None
                for p in b.p[i : len(b.p) - j] + a.p[i : len(a.p) - j]:
                    if p.__class__ is S and p.ety is not None:
                        ety = p.ety
                    elif p.__class__ is B and isinstance(p.v, Agg):
                        ety = p.v.ty
                    elif p.__class__ is B and p.v.__class__ is Lazy:
                        ety = p.v.ty
                n = next(self.I.wid)
                # Arrays keep the length
                la = T.sub(seq_len(Seq(a.p)), seq_len(Seq(a.p[:i] + (a.p[len(a.p) - j :] if j else ()))))
                lb = T.sub(seq_len(Seq(b.p)), seq_len(Seq(b.p[:i] + (b.p[len(b.p) - j :] if j else ()))))
                if self.st.same(la, lb):
                    ln = lb
                else:
                    ln = lenv(("wid", n, "len"))
                    self.vars[ln] = at + (("seqlen", i, j),)
                return Seq(b.p[:i] + (S(("wid", n), ZERO, ln, ety),) + (b.p[len(b.p) - j :] if j else ()))
            if ca is Nat and a.kind == b.kind and len(a.a) == len(b.a):
                return Nat(a.kind, tuple(self.val(x, y, at + (i,)) if isinstance(x, (Term, Seq, Agg, VecV)) else (x if x == y else ("wid", next(self.I.wid))) for i, (x, y) in enumerate(zip(a.a, b.a))), b.x)
        for x in (b, a):
            if x.__class__ is Lazy:
                return Lazy(x.ty, ("wid", next(self.I.wid)))
            if x.__class__ is Agg and x.ty is not None:
                return Lazy(x.ty, ("wid", next(self.I.wid)))
        raise Unsupported(f"widening of {str(a)[:60]} and {str(b)[:60]}")

    def now(self, st, x):
        """Value the widened position has in the state."""
        at = self.vars.get(x)
        if at is None:
            return x
        v = self.look(st.cells.get(at[0]), at[1:])
        return v if isinstance(v, Term) else V(x.w, ("unk", "gone"))

    def look(self, v, at):
        for s in at:
            if v is None:
                return None
            if s == "off":
                v = v.off if v.__class__ is Fat else None
            elif s == "len":
                v = v.len if v.__class__ is Fat else None
            elif s.__class__ is tuple and s[0] == "p":
                v = v.path[s[1]][1] if v.__class__ is Ref and len(v.path) > s[1] and v.path[s[1]].__class__ is tuple else None
            elif s.__class__ is tuple and s[0] == "seqlen":
                if v.__class__ is not Seq:
                    return None
                i, j = s[1], s[2]
                mid = v.p[i : len(v.p) - j]
                v = seq_len(Seq(mid))
            elif s == ("s",):
                v = v.s if v.__class__ is VecV else (v if v.__class__ is Seq else None)
            elif s.__class__ is int:
                if v.__class__ is Agg:
                    v = v.f[s] if s < len(v.f) else None
                elif v.__class__ is Nat:
                    v = v.a[s] if s < len(v.a) else None
                else:
                    return None
            else:
                return None
        return v

    def candidates(self, base, snaps, fid):
        out = []
        xs = [x for x in self.vars]
        vals = {}
        for x in xs:
            at = self.vars[x]
            vs = []
            for c in snaps:
                v = self.look(c.get(at[0]), at[1:])
                vs.append(v if isinstance(v, Term) and v.w == x.w else None)
            vals[x] = vs
        # Bounds: lengths around
        bounds = set()
        todo = []
        for k, c in base.cells.items():
            if k[0] != "f" or k[1] == fid:
                self.collect(c, bounds, 0)
                if k[0] == "f":
                    refs(c, todo)
        seen = set()
        while todo:
            # What the frame refers to
            k = todo.pop()
            if k in seen or k[0] != "f" or k[1] == fid:
                continue
            seen.add(k)
            c = base.cells.get(k)
            if c is not None:
                self.collect(c, bounds, 0)
                refs(c, todo)
        cand_b = [b for b in bounds if b.w == 64]
        for x in xs:
            vs = [v for v in vals[x] if v is not None]
            if len(vs) < 2:
                continue
            v0, vn = vs[0], vs[-1]
            ch = [base.decide(T.ule(a, b)) for a, b in zip(vs, vs[1:])]
            if all(ch):
                out.append(GeInv(x, v0))
                at = self.vars[x]
                counter = at and at[-1].__class__ is tuple and at[-1][0] == "seqlen"
                for b in cand_b if not counter else ():
                    if b.w == x.w and b is not x and all(base.decide(T.ule(v, b)) is True for v in vs[-2:]):
                        out.append(LeInv(x, b))
                        if all(base.decide(T.ult(v, b)) is True for v in vs[-2:]):
                            out.append(LtInv(x, b))
            ch = [base.decide(T.ule(b, a)) for a, b in zip(vs, vs[1:])]
            if all(ch):
                out.append(LeInv(x, v0))
            if x.w == 64:
                out.append(LeInv(x, C(64, MAXLEN)))
        x64 = [x for x in xs if len([v for v in vals[x] if v is not None]) >= 2]
        for x, y in itertools.combinations(x64, 2):
            if x.w != 64 or y.w != 64:
                continue
            for k in (1, -1):
                cs = []
                for a, b in zip(vals[x], vals[y]):
                    if a is None or b is None:
                        continue
                    cs.append(T.add(a, T.mulc(b, k)))
                if len(cs) >= 2 and all(base.same(c, cs[-1]) for c in cs[-3:]):
                    out.append(SumInv(x, y, k, cs[-1]))
        out.sort(key=lambda f: f.__class__ is SumInv)
        return out

    def collect(self, v, acc, d):
        if d > 5:
            return
        c = v.__class__
        if c is Fat:
            acc.add(v.len)
            acc.add(T.add(v.off, v.len))
        elif c is Seq:
            acc.add(seq_len(v))
        elif c is VecV:
            acc.add(seq_len(v.s))
        elif c is Agg:
            for x in v.f:
                if x is not None:
                    self.collect(x, acc, d + 1)
            if v.ty is not None and v.ty.k == "adt" and v.ty.d["name"] == "std::ops::Range" and len(v.f) > 1 and isinstance(v.f[1], Term):
                acc.add(v.f[1])
        elif c is Ref:
            for s in v.path:
                if s.__class__ is tuple and s[0] == "e":
                    acc.add(s[1])
        elif isinstance(v, Term) and v.w == 64:
            acc.add(v)

    def decreases(self, st, x):
        return st.decide(T.ult(self.now(st, x), x)) is True

    def increases(self, st, x):
        return st.decide(T.ult(x, self.now(st, x))) is True
