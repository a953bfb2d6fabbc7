"""INTEGER: SnmpInt::push_ber and SnmpInt::decode."""
from framework import unit
from world import *


def mkbuf(I, st, name="buf", pos=None):
    ro = roles(I.db)
    b = empty_buffer(I, st, name)
    return b


def contents(I, st, ref):
    """What is written to the buffer."""
    ro = roles(I.db)
    b = I.models.load(I, st, ref)
    data = b.f[ro.data]
    if data.__class__ is Lazy:
        data = I.expand(st, data)
    l, r = I.split(st, data.p, b.f[ro.pos])
    return mkseq(r), b.f[ro.pos]


def octets(seq):
    """Pieces as terms, or None."""
    out = []
    for p in seq.p:
        if p.__class__ is B:
            out.append(p.v)
        elif p.__class__ is S and p.len.op == "c" and p.ety is None:
            out += [V(8, ("byte", p.region, T.add(p.off, c64(i)))) for i in range(p.len.a)]
        else:
            return None
    return out


@unit("int-encode", "C15", "C03", "C17")
def int_encode(ctx):
    """Every 64-bit value: the octets are 02 len and the big-endian tail of the value, and the
    values of the path are exactly those whose minimal length is len."""
    P = "C15 C03"
    fn = find(ctx.db, "<gufo_snmp::ber::int::SnmpInt as gufo_snmp::ber::BerEncoder>::push_ber")
    r = Run(ctx, K=12)
    I, st = r.I, r.st
    x = V(64, ("x",))
    ty = I.pointee(fn.locals[1])
    me = cellref(st, "me", Agg(ty, 0, (x,)))
    buf = cellref(st, "buf", mkbuf(I, st))
    w = "ber::int::SnmpInt::push_ber"
    covered = []
    for s, v in r.go(fn, [me, buf]):
        if not is_ok(v):
            refuse(ctx, s, P, "int.encode.total", "an INTEGER is refused though the buffer is empty", w)
            continue
        seq, pos = contents(I, s, buf)
        o = octets(seq)
        if o is None or any(not isinstance(t, Term) for t in o):
            ctx.undecided(P, "int.encode.octets", f"octets are {seq}", w)
            continue
        n = len(o) - 2
        if n < 1 or n > 9:
            refuse(ctx, s, P, "int.encode.octets", f"{len(o)} octets are written for a value", w)
            continue
        compare(ctx, s, o[0], C(8, 2), P, "int.encode.tag", "tag of INTEGER", w)
        compare(ctx, s, o[1], C(8, n), P, "int.encode.length", "length octet", w)
        for i in range(n):
            k = n - 1 - i  # octet from the low end
            want = T.trunc(T.ashr(x, min(8 * k, 63)), 8) if k < 8 else T.trunc(T.ashr(x, 63), 8)
            compare(ctx, s, o[2 + i], want, P, "int.encode.octet", f"octet {i + 1} of {n} is the two's complement of the value", w)
        # Minimal: the value needs this many octets
        lo, hi = -(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1
        checks = []
        if n < 8:
            checks.append((T.slt(T.C(64, hi), x), "the value does not fit"))
            checks.append((T.slt(x, T.C(64, lo)), "the value does not fit"))
        if n > 1:
            l2, h2 = -(1 << (8 * n - 9)), (1 << (8 * n - 9)) - 1
            checks.append((T.and_(T.not_(T.slt(T.C(64, h2), x)), T.not_(T.slt(x, T.C(64, l2)))) if n <= 8 else TRUE, "fewer octets would do"))
        good = True
        for cond, what in checks:
            d = s.decide(cond)
            if d is False:
                continue
            s2 = s.clone()
            if cond is TRUE or s2.assume(cond, True):
                good = False
                refuse(ctx, s2, P, "int.encode.minimal", f"{n} octets are used where {what}", w)
        if good:
            ctx.ok(P, "int.encode.minimal", "the number of octets is the least one", w)
    r.panics("C15 C03 C17", "int.encode")


@unit("int-decode", "C02", "C15", "C16", "C01")
def int_decode(ctx):
    """Content of n octets, 1..8: the value is its two's complement; nothing else is read."""
    P = "C02 C15"
    fn = find_re(ctx.db, r"ber::int::SnmpInt.* as gufo_snmp::ber::BerDecoder<'_>>::decode$")
    w = "ber::int::SnmpInt::decode"
    ht = None
    for t in ctx.db.tys.values():
        if t.k == "adt" and t.d["name"] == "gufo_snmp::ber::header::BerHeader":
            ht = t
    if ht is None:
        raise Missing("BerHeader")
    for n in list(range(0, 11)) + [None]:
        r = Run(ctx, K=12)
        I, st = r.I, r.st
        ln = V(64, ("n",), 11, 1 << 40) if n is None else c64(n)
        rest = V(64, ("rest",), 0, 1 << 40)
        f = region(I, st, "i", T.add(ln, rest))
        h = Agg(ht, 0, tuple(ln if fn_ == "length" else I.fresh(st, I.T[ft], ("h", fn_)) for fn_, ft in ht.d["variants"][0]["fields"]))
        hr = cellref(st, "h", h)
        # The element itself has passed the check of its tag
        for s, v in r.go(fn, [f, hr]):
            if n is None or n > 8:
                if is_ok(v):
                    refuse(ctx, s, P, "int.decode.range", "an INTEGER which does not fit 64 bits is accepted", w)
                else:
                    ctx.ok(P, "int.decode.range", "more than 8 octets are refused", w)
                continue
            if not is_ok(v):
                if n == 0:
                    ctx.ok(P, "int.decode.empty", "no octets: refused", w)
                else:
                    refuse(ctx, s, P, "int.decode.total", f"an INTEGER of {n} octets is refused", w)
                continue
            if n == 0:
                continue
            x = v.f[0]
            x = x.f[0] if x.__class__ is Agg else x
            want = T.trunc(byte("i", 0), 8)
            bs = []
            for i in range(n - 1, -1, -1):
                bs.extend(T.bits(byte("i", i)))
            want = T.sext(T.mkbits(bs), 64)
            if isinstance(x, Term):
                other = [a for a in T.atoms(x) if a.a[0] == "byte" and a.a[2].op == "c" and a.a[2].a >= n]
                if other:
                    ctx.bad("C16", "int.decode.extent", f"the value depends on octet {other[0]} behind the element of {n} octets", w)
                else:
                    ctx.ok("C16", "int.decode.extent", "only octets of the element are used", w)
            compare(ctx, s, x, want, P, "int.decode.value", f"value of {n} octets is their two's complement", w)
        r.panics("C01 C02 C15", "int.decode", f"content of {n} octets: ")


@unit("length-encode", "C15", "C03", "C17")
def taglen(ctx):
    """Buffer::push_tag_len: short form below 128, 81 below 256, 82 below 65536."""
    P = "C15 C03 C17"
    fn = find(ctx.db, "gufo_snmp::buf::buffer::Buffer::push_tag_len")
    w = "buf::buffer::Buffer::push_tag_len"
    r = Run(ctx, K=4)
    I, st = r.I, r.st
    tag, v = V(8, ("tag",)), V(64, ("v",), 0, 4080)
    buf = cellref(st, "buf", mkbuf(I, st))
    for s, res in r.go(fn, [buf, tag, v]):
        lo, hi = s.urange(v)
        if not is_ok(res):
            refuse(ctx, s, P, "length.total", "a length is refused though there is room", w)
            continue
        seq, pos = contents(I, s, buf)
        o = octets(seq)
        if o is None:
            ctx.undecided(P, "length.octets", str(seq)[:200], w)
            continue
        n = len(o)
        rng = {2: (0, 127), 3: (128, 255), 4: (256, 65535)}.get(n)
        if rng is None:
            refuse(ctx, s, P, "length.form", f"{n} octets of tag and length", w)
            continue
        good = True
        for cond in (T.ult(v, c64(rng[0])), T.ult(c64(rng[1]), v)):
            s2 = s.clone()
            if s.decide(cond) is not False and s2.assume(cond, True):
                good = False
                refuse(ctx, s2, P, "length.form", f"the length form of {n - 1} octets is used for a length out of {rng}", w)
        if good:
            ctx.ok(P, "length.form", "the shortest form of the length is used", w)
        compare(ctx, s, o[0], tag, P, "length.tag", "the tag is first", w)
        if n == 2:
            compare(ctx, s, o[1], T.trunc(v, 8), P, "length.octet", "short form octet", w)
        else:
            compare(ctx, s, o[1], C(8, 0x80 + n - 2), P, "length.octet", "number of the length octets", w)
            for i in range(n - 2):
                compare(ctx, s, o[2 + i], T.trunc(T.lshr(v, 8 * (n - 3 - i)), 8), P, "length.octet", f"length octet {i}", w)
    r.panics("C15 C03 C17", "length")
