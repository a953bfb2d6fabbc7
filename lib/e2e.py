"""Sessions: the socket classes through their Python interface, from construction to the delivered value."""
import re

from world import *
import interp

VERS = {
    "v1": ("gufo_snmp::socket::v1::SnmpV1ClientSocket", 0),
    "v2c": ("gufo_snmp::socket::v2c::SnmpV2cClientSocket", 1),
    "v3": ("gufo_snmp::socket::v3::SnmpV3ClientSocket", 3),
}


def sock_quiet(I, st, c):
    """Socket options: always accepted."""
    m = c.rname.rsplit("::", 1)[1]
    if m in ("recv", "send"):
        return NotImplemented
    st.event("sock", m, tuple(_deref(I, st, a) for a in c.args[1:]), True, st.nev, c.fn.name)
    t = I.models.res_ty(I, c.dty, "Ok")
    return I.models.ok(I, c.dty, Nat("socket", (0,)) if m == "new" else UNIT)


def _deref(I, st, a):
    if a.__class__ is Ref:
        return I.get(st, a.cell, a.path)
    return a


QUIET = (rel_match("", "socket2::Socket::"), sock_quiet)


def send_ok(I, st, c):
    f = c.args[1]
    if f.__class__ is Ref:
        f = I.models.as_slice(I, st, f)
    s = I.slice_get(st, f)
    st.event("send", s)
    return I.models.ok(I, c.dty, seq_len(s))


SEND = (rel_match("socket2::Socket::send"), send_ok)


def string(I, st, name, n=None):
    """Owned string/vector of unknown octets; of known size when n is an integer."""
    name = name if isinstance(name, tuple) else (name,)
    if isinstance(n, int):
        return VecV(mkseq([B(byte(name, i)) for i in range(n)]))
    ln = V(64, name + ("len",), 0, 1 << 30) if n is None else n
    return VecV(Seq((S(name, ZERO, ln, None),)))


class Session:
    """One client socket."""

    def __init__(self, ctx, ver, K=8, timeout=False, over=(), community=None, steps=4_000_000, outs=4000, v3=None, oidtext=True, contracts=False, pool=True):
        self.ctx, self.ver = ctx, ver
        self.cls = VERS[ver][0]
        self.queue = None
        self.I = I = Interp(ctx.db, K=K)
        I.guarded = pool_contents if pool else None
        I.max_steps, I.max_outs = steps, outs
        I.overrides = list(over) + ([OIDTEXT] if oidtext else []) + ([PUSH, TAGLEN, INTPUSH] if contracts else []) + [SEND, (rel_match("socket2::Socket::recv"), self._recv), QUIET]
        st = State()
        self.community = community if community is not None else string(I, st, "community")
        tmo = c64(0) if not timeout else V(64, ("timeout_ns",), 1, 1 << 62)
        addr = VecV(Seq((S(("addr",), ZERO, V(64, ("addrlen",), 0, 100), None),)))
        if ver == "v3":
            args = v3(I, st)
            args = [addr] + args + [C(32, 0), c64(0), c64(0), tmo]
        else:
            args = [addr, self.community, C(32, 0), c64(0), c64(0), tmo]
        fn = find(ctx.db, self.cls + "::new")
        outs = self._run(st, fn, args)
        good = [(s, v) for s, v in outs if is_ok(v)]
        self.made = good
        self.cell = ("in", "self")
        self.states = []
        for s, v in good:
            s.cells[self.cell] = v.f[0]
            self.states.append(s)
        self.ref = Ref(self.cell, ())

    def _run(self, st, fn, args):
        try:
            return self.I.run(st, fn, args)
        finally:
            c = self.ctx
            c.fns.update(f.name for f in self.I.visited.values() if f.local)

    def _recv(self, I, st, c):
        """The datagrams given arrive one after another, then nothing."""
        k = st.cells.get(("recvno",), 0)
        st.cells[("recvno",)] = k + 1
        if self.queue is None:
            return NotImplemented
        f = c.args[1]
        if f.__class__ is Ref:
            f = I.models.as_slice(I, st, f)
        if k >= len(self.queue):
            e = Nat("ioerr", ("again", k))
            st.event("again")
            for n in ("WouldBlock", "ConnectionRefused"):
                st.assume(V(1, ("iokind", e, n)), n == "WouldBlock")
            return I.models.err(I, c.dty, e)
        ps = self.queue[k]
        if callable(ps):
            # The answer to the request sent last
            ps = ps(st)
            ps = ps if isinstance(ps, list) else ps.p
        n = seq_len(mkseq(ps))
        st.event("recv", k)
        old = I.slice_get(st, f)
        if n.op != "c":
            if not st.assume(T.ule(n, f.len), True):
                return []
        _, r = I.split(st, old.p, n)
        I.slice_set(st, f, list(ps) + list(r))
        return I.models.ok(I, c.dty, n)

    def call(self, st, op, extra=(), count=True):
        """Call a method of the socket. Returns [(state, result)]."""
        fn = find(self.ctx.db, f"{self.cls}::{op}")
        args = [self.ref]
        # Parameters in any order: the token of the interpreter lock is recognised by its type
        ex = list(extra)
        for i in range(1, fn.argc):
            t = fn.locals[i + 1]
            if t.k == "adt" and t.d["name"].endswith("::Python"):
                args.append(Nat("gil", ()))
            else:
                args.append(ex.pop(0))
        st.cells[("recvno",)] = 0
        outs = self._run(st, fn, args)
        if count:
            self.ctx.n_paths += len(outs)
        return outs

    def getiter(self, st, oid, max_rep=None):
        """GetIter over the OID with the given contents octets."""
        fn = find(self.ctx.db, "gufo_snmp::snmp::op::getiter::GetIter::new")
        I = self.I
        ps = oid
        I.overrides.insert(0, (rel_match("::try_from", "SnmpOid", "TryFrom<&str>"), lambda I2, s, c: oid_ok(I2, s, c, ps)))
        try:
            args = []
            for i in range(fn.argc):
                t = fn.locals[i + 1]
                if t.k == "adt" and t.d["name"].endswith("::Option"):
                    if max_rep is None:
                        args.append(Agg(t, I.vidx(t, "None"), ()))
                    else:
                        args.append(Agg(t, I.vidx(t, "Some"), (max_rep,)))
                else:
                    args.append(literal(I, st, [("oidtext", ZERO, V(64, ("oidtextlen",), 0, 1000))], "oidtext"))
            outs = [(s, v) for s, v in self._run(st, fn, args) if is_ok(v)]
        finally:
            I.overrides.pop(0)
        r = []
        for s, v in outs:
            cell = ("in", "iter")
            s.cells[cell] = v.f[0]
            r.append((s, Ref(cell, ())))
        return r


def oid_ok(I, st, c, ps):
    okt = I.models.res_ty(I, c.dty, "Ok")
    cow = I.T[okt.d["variants"][0]["fields"][0][1]]
    v = Agg(okt, 0, (Agg(cow, I.vidx(cow, "Owned"), (VecV(mkseq([B(C(8, x)) if isinstance(x, int) else x if x.__class__ in (B, S) else B(x) for x in ps])),)),))
    return I.models.ok(I, c.dty, v)


# ------------------------------------------------------------ building datagrams
def P(x):
    """Pieces."""
    out = []
    if isinstance(x, (bytes, bytearray, list, tuple)):
        for y in x:
            if isinstance(y, int):
                out.append(B(C(8, y)))
            elif isinstance(y, Term):
                out.append(B(y))
            elif y.__class__ in (B, S, Z):
                out.append(y)
            else:
                out += P(y)
        return out
    if isinstance(x, int):
        return [B(C(8, x))]
    if isinstance(x, Term):
        return [B(x)]
    return [x]


def blen(n):
    if n < 128:
        return [n]
    b = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return [0x80 | len(b), *b]


def tlv(tag, *content, lenform=None):
    """Element; all the pieces have a known size."""
    ps = P(content)
    n = seq_len(mkseq(ps))
    assert n.op == "c"
    k = n.a
    l = blen(k) if lenform is None else [0x80 | lenform, *k.to_bytes(lenform, "big")]
    return P([tag] + l) + ps


def integer(n):
    return tlv(2, minimal_int(n))


def sint(ts):
    """Value of INTEGER with these contents, 64 bits."""
    bb = []
    for t in reversed(ts):
        bb += T.bits(t)
    bb = (bb + [bb[-1]] * 64)[:64]
    return T.mkbits(bb)


# ------------------------------------------------------------ reading datagrams
class NotBer(Exception):
    pass


def octets(seq):
    """The octets of the rope one by one; pieces of unknown size stay."""
    out = []
    for p in seq.p:
        if p.__class__ is B:
            out.append(p.v)
        elif p.__class__ is Z:
            if p.len.op != "c":
                out.append(p)
            else:
                out += [p.val] * p.len.a
        elif p.len.op == "c" and p.len.a <= 8192 and p.ety is None:
            out += [V(8, ("byte", p.region, T.add(p.off, c64(i)))) for i in range(p.len.a)]
        else:
            out.append(p)
    return out


class Node:
    def __init__(self, tag, off, hl, o):
        self.tag, self.off, self.hl, self.o = tag, off, hl, o
        self.kids = None

    @property
    def end(self):
        return self.off + self.hl + len(self.o)

    def __getitem__(self, i):
        if self.kids is None:
            self.kids = tree(self.o, self.off + self.hl)
        return self.kids[i]

    def __len__(self):
        self[0:0]
        return len(self.kids)


def tree(o, base=0):
    """Definite-length elements of the octets, in a row."""
    out = []
    i = 0

    def k(j):
        if j >= len(o) or not isinstance(o[j], Term) or o[j].op != "c":
            raise NotBer(f"octet {base + j} of {len(o)}: {o[j] if j < len(o) else 'missing'!s:.60}")
        return o[j].a

    while i < len(o):
        tag = k(i)
        if tag & 31 == 31:
            raise NotBer(f"identifier {tag:#x}")
        n = k(i + 1)
        hl = 2
        if n >= 128:
            m = n & 127
            if m == 0 or m > 4:
                raise NotBer(f"length octet {n:#x}")
            n = 0
            for j in range(m):
                n = n * 256 + k(i + 2 + j)
            hl += m
            if n < 128 or n >> (8 * (m - 1)) == 0:
                raise NotBer(f"length {n} in {m} octets")
        if i + hl + n > len(o):
            raise NotBer(f"element at {base + i} of {n} octets runs past its {len(o) - i - hl}")
        out.append(Node(tag, base + i, hl, o[i + hl : i + hl + n]))
        i += hl + n
    return out


def same_octets(ctx, st, got, want, props, key, what, where):
    """Both rows of octets are equal on this path."""
    if any(x.__class__ is S for x in want):
        want = octets(mkseq(list(want)))
    if len(got) != len(want):
        refuse(ctx, st, props, key, f"{what}: {len(got)} octets where {len(want)} are due", where)
        return False
    good = True
    for i, (g, w) in enumerate(zip(got, want)):
        if w.__class__ is B:
            w = w.v
        if g is w:
            continue
        r = compare(ctx, st, g, w, props, key, f"{what}, octet {i}", where)
        good = good and r is True
    if good:
        ctx.ok(props, key, what, where)
    return good


def is_min(ctx, st, o, props, key, what, where):
    """Contents octets of INTEGER are the fewest."""
    if not o:
        refuse(ctx, st, props, key, f"{what}: INTEGER without contents", where)
        return False
    if len(o) == 1:
        ctx.ok(props, key, "minimal", where)
        return True
    nine = T.mkbits(T.bits(o[1])[7:] + T.bits(o[0]))
    for v in (0, 0x1FF):
        c = T.eq(nine, C(9, v))
        s2 = st.clone()
        if st.decide(c) is False or not s2.assume(c, True):
            continue
        refuse(ctx, s2, props, key, f"{what}: INTEGER of {len(o)} octets starts with nine equal bits", where)
        return False
    ctx.ok(props, key, "minimal", where)
    return True


def holds(ctx, st, cond, props, key, what, where):
    """The condition is true on this path."""
    s2 = st.clone()
    if st.decide(cond) is True or not s2.assume(cond, False) or not s2.consistent():
        ctx.ok(props, key, what, where)
        return True
    return refuse(ctx, s2, props, key, what + " does not hold", where)


def fails(ctx, st, conds, props, key, what, where):
    """The conditions are not all true on this path."""
    s2 = st.clone()
    for c in conds:
        if not s2.assume(c, True) or not s2.consistent():
            ctx.ok(props, key, what, where)
            return True
    return refuse(ctx, s2, props, key, what, where)


def sent(st, n0=0):
    """Datagrams sent on the path from event n0 on."""
    return [e[1] for e in st.events()[n0:] if e[0] == "send"]


def strip(o):
    """Pieces out of octets."""
    return mkseq([x if x.__class__ in (B, S, Z) else B(x) for x in o])
