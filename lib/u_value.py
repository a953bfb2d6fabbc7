"""Values: SnmpValue::from_ber and its conversion to Python."""
from framework import unit
from world import *
from u_header import tail_at

W = "snmp::value::SnmpValue"


def anchors(db):
    fb = find_re(db, r"snmp::value::SnmpValue.*::from_ber$")
    ip = find_re(db, r"<&.*snmp::value::SnmpValue.* as pyo3::IntoPyObject.*::into_pyobject$")
    return fb, ip


class Case:
    """One shape of the encoding: what the octets are, and what they denote."""

    def __init__(self, ctx, tag, n, pre=None, K=14, pieces=None):
        self.ctx = ctx
        fb, ip = anchors(ctx.db)
        r = self.r = Run(ctx, K=K)
        I, st = r.I, r.st
        self.cs = [V(8, ("c", i)) for i in range(n)] if pieces is None else None
        self.rest = V(64, ("rest",), 0, 1 << 40)
        lead = [tag, n] + self.cs if pieces is None else pieces
        self.n = n
        self.len = 2 + n if pieces is None else None
        f = literal(I, st, lead + [("r", ZERO, self.rest)])
        if pieces is not None:
            self.len = T.sub(f.len, self.rest)
        else:
            self.len = c64(self.len)
        if pre:
            pre(st, self.cs)
        self.outs = []
        self.ok = 0
        for s, v in r.go(fb, [f]):
            if not is_ok(v):
                self.outs.append((s, None, v))
                continue
            self.ok += 1
            tail, val = v.f[0].f
            tail_at(ctx, I, s, tail, self.len, f.len, "C02 C16", "value.tail", W)
            r2 = Run(ctx, K=K)
            r2.st = s
            args = [cellref(s, "val", val)]
            for i in range(1, ip.argc):
                args.append(r2.I.fresh(s, ip.locals[i + 1], ("py",)))
            for s2, v2 in r2.go(ip, args):
                self.outs.append((s2, val, v2))
            r2.panics("C01 C02", "value.python", f"tag {tag:#x}, {n} octets: ")
        r.panics("C01 C02 C16", "value", f"tag {tag:#x}, {n} octets: ")


def pyint_value(v):
    """(term of 72 bits) of a Python int."""
    t = v.a[0]
    return T.sext(t, 72) if str(v.x).startswith("i") else T.zext(t, 72)


def concat(ts, w, signed=False):
    bb = []
    for t in reversed(ts):
        bb += T.bits(t)
    if signed:
        bb += [bb[-1]] * max(0, w - len(bb))
    bb = (bb + [0] * w)[:w]
    return T.mkbits(bb)


def only(ctx, s, v, kind, props, key, what):
    """The conversion succeeds with the given kind."""
    if is_ok(v) and v.f[0].__class__ is Nat and v.f[0].kind == kind:
        ctx.ok(props, key + ".kind", f"{what} is a {kind}", W)
        return v.f[0]
    refuse(ctx, s, props, key + ".kind", f"{what} is handed out as {str(v)[:80]} and not as {kind}", W)
    return None


def ints(ctx, key, tag, sizes, signed, P="C02"):
    for n in sizes:
        def pre(st, cs):
            # Well formed: fits the type
            pass

        k = Case(ctx, tag, n, pre)
        for s, val, v in k.outs:
            if val is None:
                refuse(ctx, s, P, f"value.{key}.total", f"{key} of {n} octets is refused", W)
                continue
            o = only(ctx, s, v, "pyint", P, f"value.{key}", key)
            if o is not None:
                compare(ctx, s, pyint_value(o), concat(k.cs, 72, signed), P, f"value.{key}.value", f"{key} of {n} octets", W)


@unit("value-int", "C02", "C16", "C01")
def u_int_(ctx):
    ints(ctx, "INTEGER", 2, range(1, 9), True)


@unit("value-uint", "C02", "C16", "C01")
def u_uint(ctx):
    ints(ctx, "Counter32", 0x41, range(1, 5), False)
    ints(ctx, "Gauge32", 0x42, range(1, 5), False)
    ints(ctx, "TimeTicks", 0x43, range(1, 5), False)
    ints(ctx, "UInteger32", 0x47, range(1, 5), False)
    ints(ctx, "Counter64", 0x46, range(1, 9), False)
    # With a leading zero octet
    for key, tag, n in (("Counter32", 0x41, 5), ("Gauge32", 0x42, 5), ("TimeTicks", 0x43, 5), ("UInteger32", 0x47, 5), ("Counter64", 0x46, 9)):
        k = Case(ctx, tag, n, lambda st, cs: st.assume(T.eq(cs[0], C(8, 0)), True))
        for s, val, v in k.outs:
            if val is None:
                refuse(ctx, s, "C02", f"value.{key}.total", f"{key} of {n} octets with a leading zero is refused", W)
                continue
            o = only(ctx, s, v, "pyint", "C02", f"value.{key}", key)
            if o is not None:
                compare(ctx, s, pyint_value(o), concat(k.cs[1:], 72), "C02", f"value.{key}.value", f"{key} of {n} octets with a leading zero", W)


def flat(seq):
    """Pieces with octets by name."""
    out = []
    for p in seq.p:
        if p.__class__ is S and p.len.op == "c" and p.ety is None and p.region[0] not in ("dec",):
            out += [B(V(8, ("byte", p.region, T.add(p.off, c64(i))))) for i in range(p.len.a)]
        else:
            out.append(p)
    return out


def bytes_are(ctx, s, seq, want, props, key, what):
    a, b = flat(seq), flat(mkseq(want))
    if len(a) != len(b):
        refuse(ctx, s, props, key, f"{what}: contents {str(seq)[:120]} instead of {str(mkseq(want))[:120]}", W)
        return False
    for x, y in zip(a, b):
        if x.__class__ is B and y.__class__ is B:
            if not compare(ctx, s, x.v, y.v, props, key, what, W):
                return False
        elif x.__class__ is S and y.__class__ is S and x.region == y.region:
            if not (compare(ctx, s, x.off, y.off, props, key, what, W) and compare(ctx, s, x.len, y.len, props, key, what, W)):
                return False
        else:
            refuse(ctx, s, props, key, f"{what}: contents {str(seq)[:120]} instead of {str(mkseq(want))[:120]}", W)
            return False
    return True


@unit("value-bytes", "C02", "C16", "C01")
def u_bytes(ctx):
    for key, tag in (("OCTET STRING", 4), ("ObjectDescriptor", 7), ("Opaque", 0x44)):
        kk = key.replace(" ", "-")
        n = V(64, ("n",), 128, 65535)
        hi, lo = V(8, ("nh",)), V(8, ("nl",))
        shapes = [(0, None), (1, None), (3, None), (n, [tag, 0x82, hi, lo, ("c", ZERO, n)])]
        for ln, pieces in shapes:
            def pre(st, cs):
                if pieces is not None:
                    st.assume(T.eq(n, concat([hi, lo], 64)), True)

            k = Case(ctx, tag, ln, pre, pieces=pieces)
            want = [B(t) for t in k.cs] if pieces is None else [S(("c",), ZERO, n, None)]
            for s, val, v in k.outs:
                if val is None:
                    refuse(ctx, s, "C02", f"value.{kk}.total", f"{key} of {ln} octets is refused", W)
                    continue
                o = only(ctx, s, v, "pybytes", "C02", f"value.{kk}", key)
                if o is not None:
                    bytes_are(ctx, s, o.a[0], want, "C02 C16", f"value.{kk}.value", f"{key} of {ln} octets")


@unit("value-simple", "C02", "C16", "C01", "C07")
def u_simple(ctx):
    # Boolean
    k = Case(ctx, 1, 1)
    for s, val, v in k.outs:
        if val is None:
            refuse(ctx, s, "C02", "value.BOOLEAN.total", "BOOLEAN is refused", W)
            continue
        o = only(ctx, s, v, "pybool", "C02", "value.BOOLEAN", "BOOLEAN")
        if o is not None:
            compare(ctx, s, o.a[0], T.not_(T.eq(k.cs[0], C(8, 0))), "C02", "value.BOOLEAN.value", "BOOLEAN is false for a zero octet only", W)
    k = Case(ctx, 5, 0)
    for s, val, v in k.outs:
        if val is None:
            refuse(ctx, s, "C02 C07", "value.NULL.total", "NULL is refused", W)
            continue
        only(ctx, s, v, "pynone", "C02 C07", "value.NULL", "NULL")
    # Exceptions
    for tag, name in ((0x80, "noSuchObject"), (0x81, "noSuchInstance"), (0x82, "endOfMibView")):
        k = Case(ctx, tag, 0)
        for s, val, v in k.outs:
            if val is None:
                refuse(ctx, s, "C07", f"value.{name}.total", f"{name} is refused", W)
            elif is_err(v) and vname(v.f[0]) == "NoSuchInstance":
                ctx.ok("C07", f"value.{name}", f"{name} raises NoSuchInstance", W)
            else:
                refuse(ctx, s, "C07", f"value.{name}", f"{name} is handed out as {str(v)[:80]}", W)
    # IpAddress
    k = Case(ctx, 0x40, 4)
    for s, val, v in k.outs:
        if val is None:
            refuse(ctx, s, "C02", "value.IpAddress.total", "IpAddress is refused", W)
            continue
        o = only(ctx, s, v, "pystr", "C02", "value.IpAddress", "IpAddress")
        if o is not None:
            dotted(ctx, s, o.a[0], k.cs, "C02", "value.IpAddress.value", "IpAddress")


def tokens(s, seq):
    """Decimal numbers and dots, or None."""
    out = []
    num = None
    for p in seq.p:
        if p.__class__ is B:
            t = s.norm(p.v) if isinstance(p.v, Term) else None
            if t is None or t.op != "c":
                return None
            if 48 <= t.a <= 57:
                if num is not None and not isinstance(num, str):
                    return None
                num = (num or "") + chr(t.a)
                continue
            if num is not None:
                out.append(C(64, int(num)) if isinstance(num, str) else num)
                num = None
            if t.a != 46:
                return None
            out.append(".")
        elif p.__class__ is S and p.region[0] == "dec" and p.off is ZERO:
            if num is not None:
                return None
            t, signed = p.region[1], p.region[2]
            num = T.sext(t, 64) if signed and t.w < 64 else T.zext(t, 64) if t.w < 64 else t
        else:
            return None
    if num is not None:
        out.append(C(64, int(num)) if isinstance(num, str) else num)
    return out


def dotted(ctx, s, seq, arcs, props, key, what):
    """The text is the dotted decimal form of the arcs."""
    tk = tokens(s, seq)
    if tk is None:
        ctx.undecided(props, key, f"{what}: text {str(seq)[:100]}", W)
        return
    want = []
    for a in arcs:
        if want:
            want.append(".")
        want.append(T.zext(a, 64) if a.w < 64 else a)
    if len(tk) != len(want) or any((a == ".") != (b == ".") for a, b in zip(tk, want) if isinstance(a, str) or isinstance(b, str)):
        refuse(ctx, s, props, key, f"{what}: the text has the form {str(tk)[:120]}", W)
        return
    for a, b in zip(tk, want):
        if isinstance(a, str):
            continue
        compare(ctx, s, a, b, props, key, what, W)


# What the octets of an OID denote
PATTERNS = [(1,), (1, 1), (1, 2), (1, 3), (1, 4), (1, 5), (2, 1), (3,), (1, 1, 1), (1, 2, 1), (1, 1, 5, 2), (2, 3, 1), (5, 1)]


def group(cs):
    """Base 128 number of the octets."""
    bb = []
    for c in reversed(cs):
        bb += T.bits(c)[:7]
    bb = (bb + [0] * 32)[:32]
    return T.mkbits(bb)


def oid_arcs(st, cs, pat, first):
    """Assume well-formed sub-identifiers of the given sizes; the arcs."""
    arcs = []
    p = 0
    for j, n in enumerate(pat):
        g = cs[p : p + n]
        p += n
        for i, c in enumerate(g):
            if not st.assume(T.eq(T.mkbits(T.bits(c)[7:]), C(1, 1)), i < n - 1):
                return None
        if n > 1 and not st.assume(T.eq(g[0], C(8, 0x80)), False):
            return None
        if n == 5:
            for b in (4, 5, 6):
                if not st.assume(T.eq(T.mkbits(T.bits(g[0])[b : b + 1]), C(1, 0)), True):
                    return None
        v = group(g)
        if j == 0:
            x = C(32, first)
            ok = True
            if first < 2:
                ok = st.assume(T.ult(v, C(32, 40 * first + 40)), True)
            ok = ok and (first == 0 or st.assume(T.ult(v, C(32, 40 * first)), False))
            if not ok:
                return None
            arcs += [x, T.sub(v, C(32, 40 * first))]
        else:
            arcs.append(v)
    return arcs


@unit("value-oid", "C02", "C16", "C01", "C08", "C15")
def u_oid(ctx):
    """OBJECT IDENTIFIER as a value and as a key."""
    for pat in PATTERNS:
        for first in (0, 1, 2):
            arcs = []

            def pre(st, cs):
                a = oid_arcs(st, cs, pat, first)
                arcs.append(a)

            n = sum(pat)
            if pat[0] > 1 and first < 2:
                continue
            k = Case(ctx, 6, n, pre)
            if arcs[0] is None:
                continue
            for s, val, v in k.outs:
                what = f"OID with sub-identifiers of {pat} octets below {first}"
                if val is None:
                    refuse(ctx, s, "C02 C08 C15", "value.OID.total", what + " is refused", W)
                    continue
                o = only(ctx, s, v, "pystr", "C02 C08", "value.OID", what)
                if o is not None:
                    dotted(ctx, s, o.a[0], arcs[0], "C02 C08", "value.OID.value", what)


@unit("value-any", "C01", "C02", "C16", limit=200)
def u_any(ctx):
    """Any octets: no panic, and only the octets of the element matter."""
    fb, ip = anchors(ctx.db)
    r = Run(ctx, K=1, overrides=[HEADER])
    I, st = r.I, r.st
    f = region(I, st, "i")
    tid = (("i",), ZERO)
    cs, ce = V(64, ("cs",) + tid, 0, MAXLEN), V(64, ("ce",) + tid, 0, MAXLEN)
    seen = {}
    for s, v in r.go(fb, [f]):
        if not is_ok(v):
            continue
        tail, val = v.f[0].f
        if tail.__class__ is Fat:
            compare(ctx, s, tail.off, ce, "C16 C02", "value.tail", "what remains starts right behind the element", W)
            compare(ctx, s, tail.len, T.sub(f.len, ce), "C16 C02", "value.tail", "what remains ends with the input", W)
        nm = vname(val)
        within(ctx, I, s, val, ("i",), cs, ce, "C16", f"value.{nm}.extent", f"{nm} depends on its own octets", W)
        seen.setdefault(nm, []).append((s, val))
    r.panics("C01 C16", "value.any")
    for nm, l in seen.items():
        for s, val in l[:150]:
            r2 = Run(ctx, K=1)
            r2.st = s
            args = [cellref(s, "val", val)]
            for i in range(1, ip.argc):
                args.append(r2.I.fresh(s, ip.locals[i + 1], ("py",)))
            r2.go(ip, args)
            r2.panics("C01", f"value.any.{nm}.python")


# ---------------------------------------------------------------------- REAL
import struct


def fconst(b):
    return struct.unpack("<d", struct.pack("<Q", b))[0]


class FNorm:
    """+-mantissa * 2^exponent; the mantissa and the exponents (32-bit terms) are kept apart."""

    def __init__(self, t):
        self.neg = False
        self.m = []
        self.e = []
        self.good = True
        self.walk(t)

    def walk(self, t):
        if t.op == "c":
            self.m.append(t)
            return
        if t.op == "op":
            n, *a = t.a
            if n == "fneg":
                self.neg = not self.neg
                return self.walk(a[0])
            if n == "fmul":
                self.walk(a[0])
                return self.walk(a[1])
            if n in ("utof", "itof"):
                self.m.append(a[0])
                return
            if n in ("powi", "powf") and a[0].op == "c" and fconst(a[0].a) == 2.0:
                x = a[1]
                if n == "powf":
                    if x.op == "op" and x.a[0] == "itof":
                        x = x.a[1]
                    else:
                        self.good = False
                        return
                self.e.append(x)
                return
        self.good = False


@unit("value-real", "C02", "C16", "C01")
def u_real(ctx):
    """Binary REAL: sign, mantissa and exponent are those of X.690 8.5.7; special values."""
    P = "C02"
    FULL = 1140  # 2^-1074 over the 64 bits of the mantissa; 2^1024
    for form, el in ((0, 1), (1, 2), (2, 3), (3, 1), (3, 2), (3, 4)):
        for base, bits_ in ((0, 1), (1, 3), (2, 4)):
            for ml in (1, 2, 8) if form < 3 else (1,):
                F, sg = V(8, ("F",), 0, 3), V(8, ("S",), 0, 1)
                fb, sb = T.bits(F), T.bits(sg)
                first = T.mkbits([form & 1, form >> 1, fb[0], fb[1], base & 1, base >> 1, sb[0], 1])
                ex = [V(8, ("e", i)) for i in range(el)]
                mm = [V(8, ("m", i)) for i in range(ml)]
                cont = [first] + ([el] if form == 3 else []) + ex + mm
                what = f"binary REAL, exponent of {el} octets (form {form}), base code {base}, mantissa of {ml} octets"

                def pre(st, cs):
                    if form == 3 and el > 1:
                        # Minimal exponent
                        pass

                k = Case(ctx, 9, len(cont), pre, pieces=[9, len(cont)] + cont)
                wm = concat(mm, 64)
                E = concat(ex, 64, True)
                wscale = T.add(T.zext(T.mkbits(fb[:2]), 64), T.mulc(E, bits_))
                wscale32 = T.add(T.zext(T.mkbits(fb[:2]), 32), T.mulc(concat(ex, 32, True), bits_))
                for s, val, v in k.outs:
                    if val is None:
                        refuse(ctx, s, P, "value.REAL.total", what + " is refused", W)
                        continue
                    o = only(ctx, s, v, "pyfloat", P, "value.REAL", what)
                    if o is None:
                        continue
                    t = o.a[0]
                    n = FNorm(t)
                    ms = [x for x in n.m if x.op != "c" or fconst(x.a) != 1.0]
                    if not n.good or len(ms) != 1:
                        ctx.undecided(P, "value.REAL.value", f"{what}: {str(t)[:120]}", W)
                        continue
                    compare(ctx, s, T.zext(ms[0], 64) if ms[0].w < 64 else ms[0], wm, P, "value.REAL.mantissa", what + ": mantissa", W)
                    d = C(8, 1 if n.neg else 0)
                    compare(ctx, s, d, sg, P, "value.REAL.sign", what + ": sign", W)
                    sc = C(64, 0)
                    for x in n.e:
                        sc = T.add(sc, T.sext(x, 64) if x.w < 64 else x)
                    sc = s.norm(sc)
                    # The exponents are of 32 bits
                    sc32 = C(32, 0)
                    for x in n.e:
                        sc32 = T.add(sc32, T.trunc(x, 32) if x.w > 32 else x)
                    sc32 = s.norm(sc32)
                    if sc32.op == "c" and abs(T.scv(sc32)) >= FULL:
                        big = T.scv(sc32)
                        forms_ = [s.norm(wscale)]
                        if bits_ == 4:
                            forms_.append(T.add(T.zext(T.mkbits(fb[:2]), 64), T.shl(s.norm(E), 2)))
                        cond = None
                        for ws in forms_:
                            cond = T.slt(ws, C(64, FULL)) if big > 0 else T.slt(C(64, -FULL), ws)
                            if s.decide(cond) is False:
                                break
                        s2 = s.clone()
                        if s.decide(cond) is False or not s2.assume(cond, True):
                            ctx.ok(P, "value.REAL.exponent", "saturates for what does not fit only", W)
                        else:
                            refuse(ctx, s2, P, "value.REAL.exponent", what + ": the exponent saturates though the value fits", W)
                    else:
                        compare(ctx, s, sc32, wscale32, P, "value.REAL.exponent", what + ": exponent", W)
    # Special values
    import math

    for oct_, name, test in (
        (0x40, "PLUS-INFINITY", lambda x: x == math.inf),
        (0x41, "MINUS-INFINITY", lambda x: x == -math.inf),
        (0x42, "NOT-A-NUMBER", lambda x: x != x),
        (0x43, "minus zero", lambda x: x == 0 and math.copysign(1, x) < 0),
        (None, "plus zero", lambda x: x == 0 and math.copysign(1, x) > 0),
    ):
        cont = [] if oct_ is None else [oct_]
        k = Case(ctx, 9, len(cont), None, pieces=[9, len(cont)] + cont)
        for s, val, v in k.outs:
            if val is None:
                refuse(ctx, s, P, "value.REAL.special", f"{name} is refused", W)
                continue
            o = only(ctx, s, v, "pyfloat", P, "value.REAL.special", name)
            if o is None:
                continue
            t = s.norm(o.a[0])
            if t.op != "c":
                ctx.undecided(P, "value.REAL.special", f"{name}: {str(t)[:80]}", W)
            elif test(fconst(t.a)):
                ctx.ok(P, "value.REAL.special", name, W)
            else:
                refuse(ctx, s, P, "value.REAL.special", f"{name} is handed out as {fconst(t.a)}", W)

    # Decimal forms: the number is read from the octets behind the first one
    def origin(p, ops):
        """Pieces the text is derived from."""
        if len(p) == 1 and p[0].__class__ is S and p[0].region[0] == "text" and len(p[0].region) > 2 and isinstance(p[0].region[2], tuple):
            ops.append((p[0].region[1],) + tuple(p[0].region[3:]))
            return origin(p[0].region[2], ops)
        return p

    for nr in (1, 2, 3):
        for n in (1, 2):
            cs = [V(8, ("d", i), 48, 57) for i in range(n)]
            k = Case(ctx, 9, n + 1, None, pieces=[9, n + 1, nr] + cs, K=4)
            what = f"decimal REAL NR{nr} of {n} digits"
            for s, val, v in k.outs:
                par = None
                for x in path_of(s):
                    for t in x:
                        if isinstance(t, Term) and t.op == "v" and isinstance(t.a, tuple) and t.a[0] == "parses":
                            par = t
                if val is None:
                    if par is not None and s.decide(par) is False:
                        ctx.ok(P, "value.REAL.decimal.total", "refused if it is not a number only", W)
                    elif par is None:
                        refuse(ctx, s, P, "value.REAL.decimal.total", what + " is refused", W)
                    continue
                o = only(ctx, s, v, "pyfloat", P, "value.REAL.decimal", what)
                if o is None:
                    continue
                t = o.a[0]
                if not (t.op == "v" and isinstance(t.a, tuple) and t.a[:2] == ("parsed", "f64")):
                    if t.op == "v" or t.op == "op":
                        ctx.undecided(P, "value.REAL.decimal.value", f"{what}: {str(t)[:100]}", W)
                    else:
                        refuse(ctx, s, P, "value.REAL.decimal.value", f"{what} is handed out as {str(t)[:100]}", W)
                    continue
                ops = []
                base = origin(t.a[2], ops)
                bb = [p.v for p in base if p.__class__ is B]
                if len(bb) != len(base):
                    ctx.undecided(P, "value.REAL.decimal.value", f"{what}: {str(base)[:100]}", W)
                elif [s.norm(x) for x in bb] == [s.norm(x) for x in cs]:
                    ctx.ok(P, "value.REAL.decimal.value", f"the number is read from all octets behind the first, after {ops}"[:150], W)
                else:
                    refuse(ctx, s, P, "value.REAL.decimal.value", f"{what} is read from {str(base)[:100]}", W)
