"""What a delivered reply means: values, exceptions, walks."""
import framework
from framework import unit
from e2e import *
import u_send
import u_recv
import u_value
from u_send import Client, CONFIGS, named, check_sent, done
from u_recv import Msg, Wait, Picked, varbind, resp_pdu, outcome, pyint_of


def seven(nm, more=0, i=0):
    """Octet of a sub-identifier."""
    return T.mkbits(list(T.bits(byte(nm, i))[:7]) + [more])


def sub(st, nm, k=1):
    """Octets of a sub-identifier of k octets, none superfluous, below 2^32."""
    o = [seven(nm, 1 if i < k - 1 else 0, i) for i in range(k)]
    if k == 5:
        o[0] = T.mkbits(list(T.bits(byte(nm, 0))[:4]) + [0, 0, 0, 1])
    if k > 1:
        st.assume(T.eq(o[0], C(8, 0x80)), False)
    return o


def arc(o):
    return u_value.group([x if isinstance(x, Term) else C(8, x) for x in o])


BASE = [C(8, 0x2B), C(8, 6)]


class Key:
    """OID 1.3.6 with further sub-identifiers."""

    def __init__(self, *subs):
        self.subs = subs
        self.o = BASE + [x for s in subs for x in s]
        self.arcs = [C(32, 1), C(32, 3), C(32, 6)] + [arc(s) for s in subs]


SNMPERR = ("PySnmp", "Snmp", "NoSuchInstance", "PyNoSuchInstance")


def is_snmp_error(v):
    return is_err(v) and outcome(v).startswith(SNMPERR)


# Values: (name, tag, contents, kind)
def values(st):
    n = lambda nm, k: named(nm, k)
    out = []
    for k in (1, 2, 4, 8):
        out.append((f"INTEGER of {k} octets", tlv(2, n(("vi", k), k)), ("int", n(("vi", k), k), True)))
    for nm, tag, k in (("Counter32", 0x41, 4), ("Gauge32", 0x42, 4), ("TimeTicks", 0x43, 3), ("UInteger32", 0x47, 4), ("Counter64", 0x46, 8)):
        out.append((nm, tlv(tag, n(("vu", tag), k)), ("int", n(("vu", tag), k), False)))
    for nm, tag, k in (("Counter32", 0x41, 4), ("Counter64", 0x46, 8), ("Gauge32", 0x42, 4)):
        out.append((nm + " with a leading zero", tlv(tag, 0, n(("vz", tag), k)), ("int", n(("vz", tag), k), False)))
    for nm, tag, k in (("OCTET STRING", 4, 3), ("empty OCTET STRING", 4, 0), ("long OCTET STRING", 4, 200), ("Opaque", 0x44, 5), ("OCTET STRING of 300 octets", 4, 300)):
        r = n(("vs", tag, k), k)
        out.append((nm, tlv(tag, r), ("bytes", r)))
    out.append(("OCTET STRING with a length of three octets", tlv(4, n("vl", 4), lenform=2), ("bytes", n("vl", 4))))
    out.append(("INTEGER with a length of two octets", tlv(2, n("vm", 2), lenform=1), ("int", n("vm", 2), True)))
    out.append(("BOOLEAN", tlv(1, n("vb", 1)), ("bool", n("vb", 1))))
    out.append(("IpAddress", tlv(0x40, n("va", 4)), ("dots", [T.zext(x, 32) for x in n("va", 4)])))
    k = Key(sub(st, "vo"), sub(st, "vp", 2), sub(st, "vq", 5))
    out.append(("OBJECT IDENTIFIER", tlv(6, k.o), ("dots", k.arcs)))
    out.append(("REAL zero", tlv(9), ("float", 0.0)))
    out.append(("REAL plus infinity", tlv(9, 0x40), ("float", float("inf"))))
    out.append(("REAL 1.5", tlv(9, 0x80, 0xFF, 3), ("float", 1.5)))
    return out


NOVALUE = [("NULL", tlv(5)), ("noSuchObject", tlv(0x80)), ("noSuchInstance", tlv(0x81)), ("endOfMibView", tlv(0x82))]


def number(st, t):
    """A constant floating point term, folded."""
    import struct

    def ev(t):
        t = st.norm(t)
        if t.op == "c":
            return t.a
        if t.op != "op":
            raise ValueError(t)
        n, *a = t.a
        a = [(ev(x), x.w) for x in a]
        f = lambda i: struct.unpack("<d", struct.pack("<Q", a[i][0]))[0]
        sg = lambda i: a[i][0] - (1 << a[i][1]) if a[i][0] >> (a[i][1] - 1) else a[i][0]
        r = {
            "fmul": lambda: f(0) * f(1),
            "fadd": lambda: f(0) + f(1),
            "fsub": lambda: f(0) - f(1),
            "fneg": lambda: -f(0),
            "utof": lambda: float(a[0][0]),
            "itof": lambda: float(sg(0)),
            "powi": lambda: f(0) ** sg(1),
            "powf": lambda: f(0) ** f(1),
        }.get(n)
        if r is None:
            raise ValueError(n)
        return struct.unpack("<Q", struct.pack("<d", r()))[0]

    try:
        return C(64, ev(t))
    except (ValueError, OverflowError, ZeroDivisionError):
        return t


def value_is(ctx, st, v, want, props, key, what, where):
    """Python object against what the encoding denotes."""
    kind = want[0]
    py = {"int": "pyint", "bytes": "pybytes", "bool": "pybool", "dots": "pystr", "float": "pyfloat"}[kind]
    if v.__class__ is not Nat or v.kind != py:
        refuse(ctx, st, props, key, f"{what} is handed out as {str(v)[:80]}", where)
        return
    if kind == "int":
        o = want[1]
        compare(ctx, st, pyint_of(v), u_value.concat(o, 72, want[2]), props, key, what, where)
    elif kind == "bytes":
        same_octets(ctx, st, octets(v.a[0]), want[1], props, key, what, where)
    elif kind == "bool":
        compare(ctx, st, v.a[0], T.not_(T.eq(want[1][0], C(8, 0))), props, key, what, where)
    elif kind == "dots":
        u_value.dotted(ctx, st, v.a[0], want[1], props, key, what)
    elif kind == "float":
        t = number(st, v.a[0]) if isinstance(v.a[0], Term) else None
        import struct
        w = struct.unpack("<Q", struct.pack("<d", want[1]))[0]
        if t is not None and t.op == "c":
            (ctx.ok if t.a == w else ctx.bad)(props, key, what if t.a == w else f"{what} is handed out as {struct.unpack('<d', struct.pack('<Q', t.a))[0]}", where)
        else:
            ctx.undecided(props, key, f"{what}: {str(t)[:60]}", where)


def key_is(ctx, st, v, k, props, key, what, where):
    if v.__class__ is not Nat or v.kind != "pystr":
        refuse(ctx, st, props, key, f"{what}: key {str(v)[:60]}", where)
        return
    u_value.dotted(ctx, st, v.a[0], k.arcs, props, key, what)


def items(st, v):
    """Pairs of the dictionary."""
    d = v.f[0]
    if d.__class__ is not Nat or d.kind != "pydict":
        return None
    return [p.v.a for p in st.cells[d.x].s.p]


def lists(st, v):
    d = v.f[0]
    if d.__class__ is not Nat or d.kind != "pylist":
        return None
    return [p.v for p in st.cells[d.x].s.p]


def pair(v):
    if v.__class__ is Nat and v.kind == "pytuple":
        p = [x.v for x in v.a[0].p]
        if len(p) == 2:
            return p
    return None


def by_get(ctx, ver, long=False):
    cfg = ver
    w = Wait(ctx, cfg, "get", oids=(4, 4))
    st0 = w.st
    key = Key(sub(st0, "k0"), sub(st0, "k1", 3))
    kk = f"get.{ver}"
    for nm, enc, want in values(st0):
        for s, v in w.recv([Msg(w.cl, w.r, [varbind(key.o, enc)])]):
            what = f"{ver} get: {nm}"
            if not is_ok(v):
                refuse(ctx, s, "C02 C07", kk + ".value.refused", f"{what} ends with {outcome(v)}", w.where)
                continue
            value_is(ctx, s, v.f[0], want, "C02 C07", kk + ".value", what, w.where)
    for nm, enc in NOVALUE:
        for s, v in w.recv([Msg(w.cl, w.r, [varbind(key.o, enc)])]):
            what = f"{ver} get: {nm}"
            if nm == "NULL":
                good = is_ok(v) and v.f[0].__class__ is Nat and v.f[0].kind == "pynone"
            else:
                good = is_err(v) and "NoSuchInstance" in outcome(v)
            verdict(ctx, s, good, "C07", kk + "." + nm, f"{what} gives {outcome(v) if is_err(v) else str(v)[:60]}", w.where)
    for err, idx in ((2, 1), (2, 0), (5, 1), (18, 1)):
        for s, v in w.recv([Msg(w.cl, w.r, [varbind(key.o, NOVALUE[0][1])], err=(err,), idx=(idx,))]):
            verdict(ctx, s, is_ok(v) and getattr(v.f[0], "kind", "") == "pynone", "C07", kk + ".NULL", f"{ver} get: NULL with error-status {err} and error-index {idx} gives {outcome(v) if is_err(v) else str(v)[:60]}", w.where)
        for s, v in w.recv([Msg(w.cl, w.r, [], err=(err,), idx=(idx,))]):
            verdict(ctx, s, is_ok(v) and getattr(v.f[0], "kind", "") == "pynone", "C07", kk + ".empty", f"{ver} get: empty reply with error-status {err} gives {outcome(v) if is_err(v) else str(v)[:60]}", w.where)
    for s, v in w.recv([Msg(w.cl, w.r, [])]):
        verdict(ctx, s, is_ok(v) and getattr(v.f[0], "kind", "") == "pynone", "C07", kk + ".empty", f"{ver} get: empty reply gives {str(v)[:60]}", w.where)
    k2 = Key(sub(st0, "k2"))
    for a in (NOVALUE[0][1], tlv(2, 5), NOVALUE[2][1]):
        for b in (NOVALUE[0][1], tlv(2, 6)):
            for s, v in w.recv([Msg(w.cl, w.r, [varbind(key.o, a), varbind(k2.o, b)])]):
                verdict(ctx, s, is_snmp_error(v), "C07", kk + ".several", f"{ver} get: reply with two varbinds gives {str(v)[:60]}", w.where)
    report(ctx, w, kk, key)
    others(ctx, w, kk, key)
    done(ctx, w.cl, kk, "C01")


def report(ctx, w, kk, key):
    if w.cl.ver != "v3":
        return
    for vbs in ([], [varbind(key.o, tlv(0x41, 1))], [varbind(key.o, tlv(0x41, 1)), varbind(key.o, tlv(0x41, 1))]):
        for s, v in w.recv([Msg(w.cl, w.r, vbs, tag=0xA8)]):
            verdict(ctx, s, is_err(v) and "SnmpAuthError" in outcome(v), "C07", kk + ".report", f"{w.cfg} {w.op}: Report gives {outcome(v) if is_err(v) else str(v)[:60]}", w.where)


def others(ctx, w, kk, key):
    """PDUs which are no replies never make a value."""
    for tag in (0xA0, 0xA1, 0xA3, 0xA4, 0xA5, 0xA6, 0xA7, 0xA9, 0x82, 0x30):
        for s, v in w.recv([Msg(w.cl, w.r, [varbind(key.o, tlv(2, 1))], tag=tag)]):
            verdict(ctx, s, is_err(v), "C04", kk + ".pdu", f"{w.cfg} {w.op}: PDU {tag:#x} gives {str(v)[:60]}", w.where)


def verdict(ctx, st, good, props, key, what, where):
    if good:
        ctx.ok(props, key, what, where)
    else:
        refuse(ctx, st, props, key, what, where)


def by_get_many(ctx, ver):
    w = Wait(ctx, ver, "get_many", oids=(4, 4), idx=(0, 1))
    st0 = w.st
    keys = [Key(sub(st0, "k0")), Key(sub(st0, "k1", 2), sub(st0, "k2", 1)), Key(sub(st0, "k3", 5))]
    kk = f"get_many.{ver}"
    vals = values(st0)
    nov = [(nm, enc, None) for nm, enc in NOVALUE]
    allv = []
    for i, x in enumerate(vals):
        allv.append(x)
        if i % 4 == 1:
            allv.append(nov[(i // 4) % 4])
    n = len(allv)
    combos = [[allv[i], allv[(i + 7) % n], allv[(i + 3) % n]] for i in range(n)]
    combos += [[a, b] for a in nov for b in nov[:2]] + [[], [vals[0]], [nov[0], nov[1], nov[2]], [nov[3], vals[1], nov[0]]]
    for cb in combos:
        m = Msg(w.cl, w.r, [varbind(k.o, e[1]) for k, e in zip(keys, cb)])
        want = [(k, e) for k, e in zip(keys, cb) if e[2] is not None]
        what = f"{ver} get_many: " + ", ".join(e[0] for e in cb)
        for s, v in w.recv([m]):
            if not is_ok(v):
                refuse(ctx, s, "C02 C07", kk + ".refused", f"{what}: ends with {outcome(v)}", w.where)
                continue
            it = items(s, v)
            if it is None or len(it) != len(want):
                refuse(ctx, s, "C07 C02", kk + ".items", f"{what}: {len(it) if it is not None else str(v)[:60]} items instead of {len(want)}", w.where)
                continue
            ctx.ok("C07", kk + ".items", what, w.where)
            for (pk, pv), (k, e) in zip(it, want):
                key_is(ctx, s, pk, k, "C02 C07 C08", kk + ".key", what, w.where)
                value_is(ctx, s, pv, e[2], "C02 C07", kk + ".value", what, w.where)
    # Long OIDs and many varbinds
    lk = [Key(*[[C(8, (i * 7 + j) % 128)] for j in range(n)]) for i, n in enumerate((1, 30, 62, 100, 126))] + [Key(*[[C(8, 0x81), C(8, j % 128)] for j in range(n)]) for n in (32, 64, 100)]
    lk += [Key([C(8, 3)], [C(8, j)]) for j in range(12)]
    m = Msg(w.cl, w.r, [varbind(k.o, tlv(4, [S(("lv", i), ZERO, c64(9), None)])) for i, k in enumerate(lk)])
    for s, v in w.recv([m]):
        what = f"{ver} get_many: reply of {len(lk)} varbinds with long OIDs"
        it = items(s, v) if is_ok(v) else None
        if it is None or len(it) != len(lk):
            refuse(ctx, s, "C02 C07", kk + ".long", f"{what}: {outcome(v) if it is None else len(it)}", w.where)
            continue
        for i, ((pk, pv), k) in enumerate(zip(it, lk)):
            key_is(ctx, s, pk, k, "C02 C07 C08", kk + ".key", what, w.where)
            value_is(ctx, s, pv, ("bytes", [byte(("lv", i), j) for j in range(9)]), "C02 C07", kk + ".value", what, w.where)
    report(ctx, w, kk, keys[0])
    others(ctx, w, kk, keys[0])
    done(ctx, w.cl, kk, "C01")


class Walk:
    """Walk below 1.3.6.x, possibly after some accepted entries."""

    def __init__(self, ctx, ver, op, max_rep=None, **kw):
        self.ctx, self.ver, self.op = ctx, ver, op
        cl = Client(ctx, ver, oids=(4,), **kw)
        self.b = [seven("base")]
        cl.oids[("o", 0)] = BASE + self.b
        self.w = Wait(ctx, ver, op, cl=cl, max_rep=max_rep)
        self.mr = max_rep if max_rep is not None else (c64(20) if op == "get_bulk" else None)
        self.kk = f"{op}.{ver}"

    def key(self, *subs):
        return Key(self.b, *subs)

    def results(self, outs):
        """(state, entries, ended, exception)"""
        r = []
        for s, v in outs:
            if is_err(v):
                r.append((s, [], "Stop" in outcome(v), v))
            elif self.op == "get_next":
                p = pair(v.f[0])
                r.append((s, None if p is None else [p], False, v))
            else:
                l = lists(s, v)
                if l is None:
                    r.append((s, None, False, v))
                    continue
                e, end = [], False
                for x in l:
                    if x.__class__ is Nat and x.kind == "pynone":
                        end = True
                        break
                    e.append(pair(x))
                r.append((s, None if None in e else e, end, v))
        return r

    def reply(self, vbs, st=None, r=None, **kw):
        w = self.w if st is None else Picked(self.w, st, r)
        return self.results(w.recv([Msg(self.w.cl, w.r, vbs, **kw)]))

    def resend(self, st, last):
        """The follow-up request asks for the entry after the last accepted one. [(state, request)]"""
        cl = self.w.cl
        n0 = len(list(st.events()))
        out = []
        for s, v in cl.s.call(st, "send_" + self.op, [self.w.iter]):
            d = sent(s, n0)
            if not is_ok(v) or len(d) != 1:
                refuse(self.ctx, s, "C06 C05", self.kk + ".next", f"{self.ver} {self.op}: no follow-up request: {outcome(v)}", self.w.where)
                continue
            q = framework.Ctx(self.ctx.db, self.ctx.repo, self.ctx.tier, self.ctx.props)
            rid_props = "C06 C05 C03"
            r = check_sent(q, cl, s, d[0], self.op, [last], self.mr, boots=c64(9), time=c64(17))
            badk = [o for o in q.obs.values() if o["status"] == "violation"]
            und = [o for o in q.obs.values() if o["status"] == "undecided"]
            if badk:
                self.ctx.bad(rid_props, self.kk + ".next", f"{self.ver} {self.op}: follow-up request: {badk[0]['detail']}", self.w.where)
            elif und:
                self.ctx.undecided(rid_props, self.kk + ".next", und[0]["detail"], self.w.where)
            else:
                self.ctx.ok(rid_props, self.kk + ".next", "asks for the last accepted OID", self.w.where)
            if r is not None and hasattr(r, "ridv") and len(r.rid) == 4 and (cl.ver != "v3" or len(r.msgid) == 4):
                out.append((s, r))
        return out


def entry_is(ctx, s, p, key, want, kk, what, where):
    key_is(ctx, s, p[0], key, "C05 C06 C02", kk + ".key", what, where)
    value_is(ctx, s, p[1], want, "C05 C02", kk + ".value", what, where)


DATA = (tlv(2, [byte("dv", 0)]), ("int", [byte("dv", 0)], True))
DATB = (tlv(4, [byte("dw", i) for i in range(2)]), ("bytes", [byte("dw", i) for i in range(2)]))


def by_walk(ctx, ver, op):
    W = Walk(ctx, ver, op)
    w = W.w
    st0 = w.st
    kk = W.kk
    name = f"{ver} {op}"
    # Entries below the base
    shapes = [(1,), (2,), (3,), (4,), (5,), (1, 1), (2, 1), (1, 5, 1)]
    firsts = {}
    for sh in shapes:
        k = W.key(*[sub(st0, ("y", i, n), n) for i, n in enumerate(sh)])
        for s, e, end, v in W.reply([varbind(k.o, DATA[0])]):
            what = f"{name}: entry with sub-identifiers of {sh} octets below the base"
            if e is None or len(e) != 1 or end:
                refuse(ctx, s, "C05", kk + ".entry", f"{what} gives {outcome(v) if is_err(v) else str(v)[:80]}", w.where)
                continue
            entry_is(ctx, s, e[0], k, DATA[1], kk, what, w.where)
            firsts.setdefault(sh, (s, k))
    # Every kind of value
    st1 = st0.clone()
    vals = values(st1)
    Wv = Picked(w, st1, w.r)
    k = W.key([C(8, 7)])
    if op == "get_next":
        for nm, enc, want in vals:
            for s, e, end, v in W.results(Wv.recv([Msg(w.cl, w.r, [varbind(k.o, enc)])])):
                if not e or end:
                    refuse(ctx, s, "C05 C02", kk + ".value.refused", f"{name}: {nm} gives {outcome(v) if is_err(v) else str(v)[:80]}", w.where)
                    continue
                entry_is(ctx, s, e[0], k, want, kk, f"{name}: {nm}", w.where)
    else:
        for i in range(0, len(vals), 6):
            part = vals[i : i + 6]
            ks = [W.key([C(8, 7)], [C(8, j)]) for j in range(len(part))]
            for s, e, end, v in W.results(Wv.recv([Msg(w.cl, w.r, [varbind(a.o, x[1]) for a, x in zip(ks, part)])])):
                what = f"{name}: " + ", ".join(x[0] for x in part)
                if e is None or len(e) != len(part) or end:
                    refuse(ctx, s, "C05 C02", kk + ".value.refused", f"{what} gives {outcome(v) if is_err(v) else len(e or [])}", w.where)
                    continue
                for p, a, x in zip(e, ks, part):
                    entry_is(ctx, s, p, a, x[2], kk, what, w.where)
    # Long OIDs
    for n, f in ((20, 1), (33, 1), (63, 1), (100, 1), (124, 1), (31, 2), (64, 2), (100, 2), (124, 5)):
        head = {1: [], 2: [C(8, 0x81)], 5: [C(8, 0x81)] + [C(8, 0x80)] * 3}[f]
        k = W.key(*[head + [C(8, (j * 5 + n) % 128)] for j in range(n)])
        for s, e, end, v in W.reply([varbind(k.o, DATA[0])]):
            what = f"{name}: entry with {n} sub-identifiers of {f} octets below the base"
            if not e or end:
                refuse(ctx, s, "C05", kk + ".entry", f"{what} gives {outcome(v) if is_err(v) else str(v)[:80]}", w.where)
                continue
            entry_is(ctx, s, e[0], k, DATA[1], kk, what, w.where)
            if n in (63, 124):
                W.resend(s.clone(), k.o)
    # Out of the subtree
    outs = []
    x = seven("x")
    outs.append(("another subtree", BASE + [x] + sub(st0, "z"), [T.eq(x, W.b[0])]))
    outs.append(("the base itself", BASE + W.b, [FALSE]))
    outs.append(("a shorter OID", BASE, [FALSE]))
    outs.append(("a shorter OID", BASE[:1], [FALSE]))
    outs.append(("the same size", BASE + [x], [FALSE]))
    x2 = sub(st0, "x2", 2)
    outs.append(("a larger sub-identifier", BASE + x2 + sub(st0, "z"), [FALSE]))
    y0, y1 = seven("y0"), seven("y1")
    outs.append(("any OID", [y0, y1, x, seven("z")], [T.eq(y0, BASE[0]), T.eq(y1, BASE[1]), T.eq(x, W.b[0])]))
    # a sub-identifier of the base followed by a continuation is another number
    outs.append(("a continued sub-identifier", BASE[:1] + [C(8, 0x86)] + [x] + sub(st0, "z"), [FALSE]))
    for nm, o, conds in outs:
        for s, e, end, v in W.reply([varbind(o, DATA[0])]):
            what = f"{name}: {nm}"
            if e:
                for c in conds:
                    if not holds(ctx, s, c, "C06", kk + ".out", f"{what} is yielded: inside of the subtree", w.where):
                        break
            elif end or op == "get_next" and "SnmpDecodeError" in outcome(v):
                fails(ctx, s, conds, "C05", kk + ".entry", f"{what}: an entry of the subtree ends the walk", w.where)
            else:
                refuse(ctx, s, "C06", kk + ".out-end", f"{what}: the walk does not end: {outcome(v) if is_err(v) else str(v)[:80]}", w.where)
    # No data
    k = W.key(sub(st0, "y"))
    cases = [("empty reply", [])] + [(nm, [varbind(k.o, enc)]) for nm, enc in NOVALUE] + [(nm + " for the base", [varbind(BASE + W.b, enc)]) for nm, enc in NOVALUE]
    if op == "get_bulk":
        cases += [(f"{a[0]} and {b[0]}", [varbind(k.o, a[1]), varbind(k.o, b[1])]) for a in NOVALUE for b in NOVALUE[:2]]
    for nm, vbs, kw in [(a, b, {}) for a, b in cases] + [(a + " with error-status 2", b, dict(err=(2,), idx=(1,))) for a, b in cases[:2]]:
        for s, e, end, v in W.reply(vbs, **kw):
            verdict(ctx, s, not e and end, "C06 C05", kk + ".no-data", f"{name}: {nm} gives {outcome(v) if is_err(v) else str(v)[:60]}", w.where)
    if op == "get_next":
        for s, e, end, v in W.reply([varbind(k.o, DATA[0]), varbind(k.o, DATA[0])]):
            verdict(ctx, s, is_err(v), "C06", kk + ".several", f"{name}: reply with two varbinds gives {str(v)[:60]}", w.where)
    report(ctx, w, kk, k)
    others(ctx, w, kk, k)
    # Follow-up requests and order
    for sh in ((1,), (2,), (5,), (1, 1), (1, 5, 1)):
        if sh not in firsts:
            continue
        s1, k1 = firsts[sh]
        nxt = W.resend(s1.clone(), k1.o)
        if not nxt:
            continue
        s2, r2 = nxt[0]
        for n in ((1,), (2,), (5,), (1, 1), (1, 1, 1)) if sh in ((1,), (2,), (5,)) else ((1,), (1, 1), (2, 2), (1, 1, 1, 1)):
            ks = W.key(*[sub(s2, ("w", i, m), m) for i, m in enumerate(n)])
            later = after(ks.subs, k1.subs)
            for s, e, end, v in W.reply([varbind(ks.o, DATB[0])], s2, r2):
                what = f"{name}: entry of {n} after the entry of {sh}"
                if e:
                    entry_is(ctx, s, e[0], ks, DATB[1], kk, what, w.where)
                    if holds(ctx, s, later, "C06", kk + ".order", f"{what} is yielded: it comes later", w.where) and n in ((1,), (1, 1, 1)):
                        W.resend(s.clone(), ks.o)
                elif end:
                    fails(ctx, s, [later], "C05", kk + ".order-taken", f"{what}: a later entry ends the walk", w.where)
                else:
                    refuse(ctx, s, "C06", kk + ".order-end", f"{what}: the walk does not end: {outcome(v)}", w.where)
        # The same entry again
        for s, e, end, v in W.reply([varbind(k1.o, DATB[0])], s2, r2):
            verdict(ctx, s, not e and end, "C06", kk + ".again", f"{name}: the same entry again gives {str(v)[:60]}", w.where)
        # What comes below it
        kb = Key(*k1.subs, sub(s2, "below"))
        for s, e, end, v in W.reply([varbind(kb.o, DATB[0])], s2, r2):
            verdict(ctx, s, bool(e) and not end, "C05", kk + ".below", f"{name}: an entry below the last one gives {outcome(v) if is_err(v) else ''}", w.where)
        for nm, enc in NOVALUE:
            for s, e, end, v in W.reply([varbind(k1.o, enc)], s2, r2):
                verdict(ctx, s, not e and end, "C06 C05", kk + ".no-data", f"{name}: {nm} after an entry gives {str(v)[:60]}", w.where)
    if op == "get_bulk":
        bulk(ctx, W)
    done(ctx, w.cl, kk, "C01")


def after(a, b):
    """The OID with sub-identifiers a is greater than the one with b."""
    r = boolc(len(a) > len(b))
    for x, y in reversed(list(zip(a, b))):
        x, y = arc(x), arc(y)
        r = T.or_(T.ult(y, x), T.and_(T.eq(x, y), r))
    return r


def boolc(b):
    return TRUE if b else FALSE


def bulk(ctx, W):
    """Several entries in a reply."""
    w, kk, name = W.w, W.kk, f"{W.ver} get_bulk"
    st0 = w.st
    lit = lambda *a: W.key(*[[C(8, x)] for x in a])
    exc = NOVALUE[3][1]
    D, E = DATA, DATB
    k = [lit(1, 0), lit(1, 1), lit(2, 0), lit(3)]
    big = W.key([C(8, 0x81), C(8, 0)])
    out = Key([T.add(W.b[0], C(8, 0))]) if 0 else None
    nb = T.mkbits([1 - b if isinstance(b, int) else (b[0], b[1], 1 - b[2]) for b in T.bits(W.b[0])[:1]] + list(T.bits(W.b[0])[1:]))
    ex = Key([nb], [C(8, 1)])
    cases = [
        ("two entries", [(k[0], D), (k[1], E)], 2, False),
        ("four entries", [(k[0], D), (k[1], E), (k[2], D), (k[3], E)], 4, False),
        ("sub-identifier 128 after 3", [(k[3], D), (big, E)], 2, False),
        ("an entry and the end of MIB", [(k[0], D), (k[0], exc)], 1, None),
        ("an entry and two ends of MIB", [(k[0], D), (k[0], exc), (k[0], exc)], 1, None),
        ("an entry and another subtree", [(k[0], D), (ex, E)], 1, True),
        ("another subtree between", [(k[0], D), (ex, E), (k[1], D)], 1, True),
        ("another subtree first", [(ex, D), (k[1], E)], 0, True),
        ("a step backwards", [(k[1], D), (k[0], E), (k[2], E)], 1, True),
        ("the same entry twice", [(k[1], D), (k[1], E), (k[2], D)], 1, True),
    ]
    for nm, vb, n, ended in cases:
        vbs = [varbind(a.o, v[0] if v.__class__ is tuple else v) for a, v in vb]
        for s, e, end, v in W.reply(vbs):
            what = f"{name}: {nm}"
            if e is None or len(e) != n:
                refuse(ctx, s, "C05 C06", kk + ".entries", f"{what}: {len(e) if e is not None else outcome(v)} entries instead of {n}", w.where)
                continue
            if ended is not None and bool(end) != ended:
                refuse(ctx, s, "C06" if ended else "C05", kk + ".end", f"{what}: the walk {'goes on' if ended else 'ends'}", w.where)
                continue
            ctx.ok("C05 C06", kk + ".entries", what, w.where)
            for p, (a, val) in zip(e, vb):
                entry_is(ctx, s, p, a, val[1], kk, what, w.where)
            if n and not end:
                W.resend(s.clone(), vb[n - 1][0].o)


for _v in ("v1", "v2c", "v3"):
    def _f(ctx, v=_v):
        by_get(ctx, v)

    _f.__doc__ = f"Results of {_v} get()."
    unit(f"reply-get-{_v}", "C01", "C02", "C04", "C07")(_f)

    def _f(ctx, v=_v):
        by_get_many(ctx, v)

    _f.__doc__ = f"Results of {_v} get_many()."
    unit(f"reply-many-{_v}", "C01", "C02", "C04", "C07", "C08")(_f)
    for _o in ("get_next",) + (("get_bulk",) if _v != "v1" else ()):
        def _f(ctx, v=_v, o=_o):
            by_walk(ctx, v, o)

        _f.__doc__ = f"Steps of a walk by {_o} over {_v}."
        unit(f"reply-{_o}-{_v}", "C01", "C02", "C03", "C04", "C05", "C06", "C07", limit=300)(_f)
