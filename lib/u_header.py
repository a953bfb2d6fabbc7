"""BER header: BerHeader::from_ber."""
from framework import unit
from world import *

W = "ber::header::BerHeader::from_ber"


@unit("header-total", "C01", "C16")
def header_total(ctx):
    """Any octets: no panic, all loops make progress."""
    fn = find(ctx.db, "gufo_snmp::ber::header::BerHeader::from_ber")
    r = Run(ctx, K=3)
    I, st = r.I, r.st
    f = region(I, st, "i")
    for s, v in r.go(fn, [f]):
        if not is_ok(v):
            continue
        tail, h = v.f[0].f
        n = field(h, "length")
        inside(ctx, s, tail, n, ("i",), "C16 C01", "header.extent", "the contents end inside of the input", W)
    r.panics("C01 C16", "header")


def inside(ctx, s, tail, n, reg, props, key, what, where):
    """n octets of the slice are there, and the slice lies in the region."""
    if tail.__class__ is not Fat:
        ctx.undecided(props, key, str(tail)[:100], where)
        return
    s2 = s.clone()
    c = T.ult(tail.len, n)
    if s.decide(c) is False or not s2.assume(c, True):
        ctx.ok(props, key, what, where)
    else:
        refuse(ctx, s2, props, key, f"the declared length {n} exceeds what is there ({tail.len})", where)


def tail_at(ctx, I, s, tail, off, total, props, key, where):
    """The tail is the input from `off` on."""
    if tail.__class__ is not Fat:
        ctx.undecided(props, key, str(tail)[:100], where)
        return
    a = compare(ctx, s, tail.off, off, props, key, "what remains starts right behind", where)
    if a:
        compare(ctx, s, tail.len, T.sub(total, off), props, key, "what remains ends with the input", where)


@unit("header", "C02", "C16", "C15")
def header(ctx):
    """Every identifier and length form against X.690 8.1.2, 8.1.3."""
    fn = find(ctx.db, "gufo_snmp::ber::header::BerHeader::from_ber")
    P = "C02 C16"
    forms = []
    for high in (0, 1, 2):
        for nl in (0, 1, 2, 3, 4, 8, 9):
            if high and nl > 2:
                continue
            forms.append((high, nl))
    for high, nl in forms:
        r = Run(ctx, K=14)
        I, st = r.I, r.st
        b0 = V(8, ("id",))
        low = T.mkbits(T.bits(b0)[:5])
        pieces = [b0]
        st.assume(T.eq(low, C(5, 31)), bool(high))
        hs = [V(8, ("tag", i)) for i in range(high)]
        for i, t in enumerate(hs):
            st.assume(T.eq(T.mkbits(T.bits(t)[7:]), C(1, 0)), i == len(hs) - 1)
        pieces += hs
        if nl == 0:
            l0 = V(8, ("len0",))
            st.assume(T.ult(l0, C(8, 128)), True)
            pieces.append(l0)
            want = T.zext(l0, 64)
        else:
            pieces.append(0x80 + nl)
            ls = [V(8, ("len", i)) for i in range(nl)]
            if nl == 9:
                st.assume(T.eq(ls[0], C(8, 0)), True)
            pieces += ls
            bb = []
            for t in reversed(ls[-8:]):
                bb += T.bits(t)
            want = T.zext(T.mkbits(bb), 64)
        hl = len(pieces)
        rest = V(64, ("rest",), 0, 1 << 40)
        pieces.append(("r", ZERO, rest))
        f = literal(I, st, pieces)
        what = f"{1 + high} identifier octets, {1 + nl} length octets: "
        for s, v in r.go(fn, [f]):
            if not is_ok(v):
                s2 = s.clone()
                c = T.ult(rest, want)
                if s.decide(c) is True or not s2.assume(c, False):
                    ctx.ok(P, "header.refused", "only an element which does not fit is refused", W)
                else:
                    refuse(ctx, s2, P, "header.refused", what + "an element which is all there is refused", W)
                continue
            tail, h = v.f[0].f
            compare(ctx, s, field(h, "length"), want, P + " C15", "header.length", what + "length", W)
            tail_at(ctx, I, s, tail, c64(hl), T.add(c64(hl), rest), P, "header.tail", W)
            s2 = s.clone()
            c = T.ult(rest, want)
            if s.decide(c) is False or not s2.assume(c, True):
                ctx.ok(P, "header.fits", "the element is all there", W)
            else:
                refuse(ctx, s2, P, "header.fits", what + "an element which runs past the input is accepted", W)
            cons = field(h, "constructed")
            compare(ctx, s, T.zext(cons, 8), T.zext(T.mkbits(T.bits(b0)[5:6]), 8), P, "header.constructed", "bit 6", W)
            tag = field(h, "tag")
            if high == 0:
                wt = T.zext(low, tag.w)
            else:
                bb = []
                for t in reversed(hs):
                    bb += T.bits(t)[:7]
                wt = T.mkbits((bb + [0] * tag.w)[: tag.w])
            if high < 2:
                compare(ctx, s, tag, wt, P, "header.tag", what + "tag number", W)
            cl = field(h, "class")
            names = {"Universal": 0, "Application": 1, "Context": 2, "Private": 3}
            vn = vname(cl)
            if vn is None and cl.__class__ is Lazy:
                cl = I.expand(s, cl)
                vn = vname(cl)
            if vn in names:
                compare(ctx, s, T.zext(T.mkbits(T.bits(b0)[6:8]), 8), C(8, names[vn]), P, "header.class", f"class {vn}", W)
            else:
                ctx.undecided(P, "header.class", str(cl)[:80], W)
        r.panics("C01 C16", "header", what)
