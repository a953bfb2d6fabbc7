"""What goes on the wire: requests of every version, operation and security configuration."""
from framework import unit
from e2e import *

PDU = {"get": 0xA0, "get_many": 0xA0, "get_next": 0xA1, "get_bulk": 0xA5, "refresh": 0xA0}
KS = {0: 0, 1: 16, 2: 20}
ALG = {1: "md5", 2: "sha1"}

# version, authentication, privacy
CONFIGS = {
    "v1": ("v1", 0, 0), "v2c": ("v2c", 0, 0), "v3": ("v3", 0, 0), "v3-md5": ("v3", 1, 0), "v3-sha": ("v3", 2, 0),
    "v3-md5-des": ("v3", 1, 1), "v3-md5-aes": ("v3", 1, 2), "v3-sha-des": ("v3", 2, 1), "v3-sha-aes": ("v3", 2, 2),
}


def named(name, n):
    return [byte(name, i) for i in range(n)]


class Client:
    """Session of the given configuration with credentials of known size."""

    def __init__(self, ctx, cfg, oids=(), clen=3, elen=5, ulen=3, pool=False, K=80, over=(), **kw):
        self.cfg = cfg
        self.ver, self.auth, self.priv = CONFIGS[cfg]
        self.oids = {("o", i): named(("oid", i), n) if isinstance(n, int) else n for i, n in enumerate(oids)}
        self.eid, self.user = named("eid", elen), named("user", ulen)
        self.comm = named("c", clen)
        self.akey, self.pkey = named("akey", KS[self.auth]), named("pkey", KS[self.auth] if self.priv else 0)
        over = list(over) + [(rel_match("::try_from", "SnmpOid", "TryFrom<&str>"), self._oid)]
        self.s = Session(ctx, self.ver, K=K, pool=pool, community=VecV(mkseq(P(self.comm))), v3=self._v3, oidtext=False, over=over, **kw)
        self.I = self.s.I
        self.I.strict_cipher = bool(self.priv)
        if not self.s.states:
            e = Missing(f"no session of {cfg} is made: {sorted(set(self.s.I.unsup))[:1]}")
            e.interp = self.s.I
            raise e
        self.st = self.s.states[0]

    def _v3(self, I, st):
        lit = lambda nm, o: literal(I, st, o, nm)
        return [VecV(mkseq(P(self.eid))), VecV(mkseq(P(self.user))), C(8, self.auth | 0x80 if self.auth else 0), lit("akey", self.akey),
                C(8, self.priv | 0x80 if self.priv else 0), lit("pkey", self.pkey)]

    def _oid(self, I, st, c):
        f = c.args[0]
        s = I.slice_get(st, f) if f.__class__ is Fat else None
        if s is None or len(s.p) != 1 or s.p[0].__class__ is not S:
            return NotImplemented
        n = s.p[0].region[1:]
        if n not in self.oids:
            return NotImplemented
        return oid_ok(I, st, c, self.oids[n])

    def obj(self, i):
        return Nat("obj", (None, ("o", i)))

    def request(self, st, op, idx=(0,), max_rep=None, verb="send_"):
        """All the paths of a request."""
        if op == "refresh":
            return self.s.call(st, verb + op)
        if op == "get":
            return self.s.call(st, verb + op, [self.obj(idx[0])])
        if op == "get_many":
            return self.s.call(st, verb + op, [VecV(mkseq([B(self.obj(i)) for i in idx]))])
        out = []
        for s2, it in self.s.getiter(st, self.oids[("o", idx[0])], max_rep):
            out += self.s.call(s2, verb + op, [it])
        return out


def pdu_octets(op, rid, oids, max_rep=None):
    vb = [tlv(0x30, tlv(6, P(o)), tlv(5)) for o in oids]
    a, b = (integer(0), integer(0)) if op != "get_bulk" else (integer(0), tlv(2, max_rep))
    return tlv(PDU[op], tlv(2, rid), a, b, tlv(0x30, *vb))


def mac_of(alg, key, msg):
    """HMAC-96 as octets."""
    key = key + [C(8, 0)] * (64 - len(key))
    x = lambda k, v: T.xor(k, C(8, v))
    inner = ("digest", alg, mkseq(P([x(k, 0x36) for k in key]) + P(msg)).p)
    size = 16 if alg == "md5" else 20
    outer = ("digest", alg, mkseq(P([x(k, 0x5C) for k in key]) + [S(inner, ZERO, c64(size), None)]).p)
    return [byte(outer, i) for i in range(12)]


class Sent:
    """A message taken apart."""


def check_sent(ctx, cl, st, msg, op, oids, max_rep=None, eng=None, boots=None, time=None, user=None, akey=None, pkey=None, auth=None, priv=None, tag=""):
    """The datagram is the very request; the parts which are free are returned."""
    where = f"{cl.s.cls}::send_{op}"
    key = f"wire.{cl.ver}"
    what = f"{cl.cfg} {op}{tag}"
    A3 = "C03 C15"
    r = Sent()
    o = octets(msg)
    r.o = o
    try:
        top = tree(o)
        if len(top) != 1 or top[0].tag != 0x30:
            raise NotBer("not a single SEQUENCE")
        top = top[0]
        ver = VERS[cl.ver][1]
        if cl.ver != "v3":
            v, comm, pdu = top[0], top[1], top[2]
            if len(top) != 3:
                raise NotBer(f"{len(top)} elements")
            rid = pdu[0]
            mr = pdu[2].o if op == "get_bulk" else None
            want = tlv(0x30, integer(ver), tlv(4, P(cl.comm)), pdu_octets(op, rid.o, oids, mr))
            r.rid = rid.o
            r.pdu = pdu
            same_octets(ctx, st, o, want, "C03 C08 C15 C17", key + ".octets", what, where)
        else:
            return check_sent_v3(ctx, cl, st, r, top, op, oids, max_rep, eng, boots, time, user, akey, pkey, auth, priv, what, where, key)
    except (NotBer, IndexError) as e:
        more = (" C09" if cl.auth else "") + (" C11 C14" if cl.priv else "")
        refuse(ctx, st, A3 + " C17" + more, key + ".form", f"{what}: not a well-formed message ({e})", where)
        return None
    check_ids(ctx, st, r, pdu, op, max_rep, key, what, where)
    return r


def check_ids(ctx, st, r, pdu, op, max_rep, key, what, where):
    rid = r.rid
    is_min(ctx, st, rid, "C03 C15", key + ".min", f"{what}: request-id", where)
    if len(rid) <= 8:
        r.ridv = sint(rid)
        holds(ctx, st, T.ult(r.ridv, c64(1 << 31)), "C03", key + ".rid", f"{what}: request-id in 0..2^31-1", where)
    if max_rep is not None:
        mr = pdu[2].o
        is_min(ctx, st, mr, "C03 C15", key + ".min", f"{what}: max-repetitions", where)
        if len(mr) <= 8:
            compare(ctx, st, sint(mr), max_rep, "C03", key + ".max-repetitions", what, where)


CIPHER = {1: ("cbc.des", 8), 2: ("cfb_mode.aes128", 16)}


def check_sent_v3(ctx, cl, st, r, top, op, oids, max_rep, eng, boots, time, user, akey, pkey, auth, priv, what, where, key):
    auth = cl.auth if auth is None else auth
    priv = cl.priv if priv is None else priv
    eng = cl.eid if eng is None else eng
    user = cl.user if user is None else user
    akey = cl.akey if akey is None else akey
    pkey = cl.pkey if pkey is None else pkey
    if len(top) != 4:
        raise NotBer(f"{len(top)} elements")
    head, usm, data = top[1], top[2], top[3]
    if usm.tag != 4 or head.tag != 0x30 or len(head) != 4:
        raise NotBer("header")
    sec = usm[0]
    if len(usm) != 1 or sec.tag != 0x30 or len(sec) != 6:
        raise NotBer("security parameters")
    msgid, maxsz, flags, model = head[0:4]
    e, b, t, u, mac, salt = sec[0:6]
    r.msgid, r.boots, r.time, r.mac, r.salt, r.eng = msgid.o, b.o, t.o, mac.o, salt.o, e.o
    K3 = "C03 C13 C15"
    # Message size the client is ready for: RFC 3412, 484..2^31-1
    is_min(ctx, st, maxsz.o, "C03 C15", key + ".min", f"{what}: msgMaxSize", where)
    if len(maxsz.o) <= 8:
        mv = sint(maxsz.o)
        holds(ctx, st, T.and_(T.ule(c64(484), mv), T.ult(mv, c64(1 << 31))), "C03", key + ".maxsize", f"{what}: msgMaxSize in 484..2^31-1", where)
    is_min(ctx, st, msgid.o, "C03 C15", key + ".min", f"{what}: msgID", where)
    if len(msgid.o) <= 8:
        r.msgidv = sint(msgid.o)
        holds(ctx, st, T.ult(r.msgidv, c64(1 << 31)), "C03", key + ".msgid", f"{what}: msgID in 0..2^31-1", where)
    for nm, x, w in (("engine boots", b.o, boots), ("engine time", t.o, time)):
        is_min(ctx, st, x, "C03 C15", key + ".min", f"{what}: {nm}", where)
        if len(x) <= 8:
            compare(ctx, st, sint(x), w if w is not None else c64(0), "C03 C13", key + "." + nm.replace(" ", "-"), f"{what}: {nm}", where)
    if len(flags.o) != 1:
        raise NotBer("flags")
    fl = flags.o[0]
    rep = T.and_(fl, C(8, 4))
    want_fl = (1 if auth else 0) | (2 if priv else 0)
    PF = "C03" + (" C09" if True else "") + (" C14" if priv else "")
    compare(ctx, st, T.and_(fl, C(8, 0xFB)), C(8, want_fl), PF, key + ".flags", f"{what}: security flags", where)
    if op == "refresh":
        compare(ctx, st, rep, C(8, 4), "C13 C03", key + ".reportable", f"{what}: reportable flag", where)
    # Octets of everything but the free parts
    if len(mac.o) != (12 if auth else 0):
        refuse(ctx, st, "C09 C03", key + ".mac-size", f"{what}: msgAuthenticationParameters of {len(mac.o)} octets", where)
        return None
    ctx.ok("C09", key + ".mac-size", what, where)
    want = tlv(0x30, integer(3), tlv(0x30, tlv(2, msgid.o), tlv(2, maxsz.o), tlv(4, flags.o), integer(3)),
               tlv(4, tlv(0x30, tlv(4, P(eng)), tlv(2, b.o), tlv(2, t.o), tlv(4, P(user)), tlv(4, mac.o), tlv(4, salt.o))), tlv(data.tag, data.o))
    same_octets(ctx, st, r.o, want, "C03 C13 C15 C17", key + ".octets", f"{what}: message header", where)
    # Data
    scoped_want = None
    if priv:
        if data.tag != 4:
            refuse(ctx, st, "C11 C14 C03", key + ".clear", f"{what}: msgData in clear", where)
            return None
        if len(salt.o) != 8:
            refuse(ctx, st, "C14 C11", key + ".salt-size", f"{what}: salt of {len(salt.o)} octets", where)
            return None
        ctx.ok("C14 C11", key + ".clear", "msgData is encrypted", where)
        ct = strip(data.o)
        p = ct.p[0] if len(ct.p) == 1 else None
        if p.__class__ is not S or p.region[0] != "cipher" or p.off is not ZERO:
            leak = [x for x in data.o if isinstance(x, Term) and (x.op != "v" or x.a[0] != "byte" or x.a[1][0] != "cipher")]
            (refuse if leak else ctx.undecided)(*((ctx, st) if leak else ()), "C11 C14", key + ".cipher", f"{what}: msgData is not the output of the cipher: {str(ct)[:200]}", where)
            return None
        _, alg, k, iv, plain, mode = p.region
        name, bs = CIPHER[priv]
        if alg != name:
            refuse(ctx, st, "C11", key + ".algorithm", f"{what}: {alg} where {name} is due", where)
        elif mode not in ("NoPadding", "stream"):
            ctx.undecided("C11", key + ".algorithm", mode, where)
        else:
            ctx.ok("C11", key + ".algorithm", alg, where)
        same_octets(ctx, st, octets(Seq(k)), pkey[:bs], "C11", key + ".cipher-key", f"{what}: key of the cipher", where)
        if priv == 1:
            wiv = [T.xor(pkey[8 + i], salt.o[i]) for i in range(8)]
            bb = T.trunc(boots if boots is not None else c64(0), 32)
            same_octets(ctx, st, salt.o[:4], be(bb, 4), "C14 C11", key + ".salt", f"{what}: salt starts with the engine boots", where)
        else:
            wiv = be(T.trunc(boots if boots is not None else c64(0), 32), 4) + be(T.trunc(time if time is not None else c64(0), 32), 4) + salt.o
        same_octets(ctx, st, octets(Seq(iv)), wiv, "C11", key + ".iv", f"{what}: initialization vector", where)
        po = octets(Seq(plain))
        if len(data.o) != len(po):
            refuse(ctx, st, "C11", key + ".cut", f"{what}: {len(po)} octets are encrypted, {len(data.o)} sent", where)
        scoped = tree_first(po)
        pad = len(po) - scoped.end
        if pad < bs:
            ctx.ok("C11", key + ".padding", f"{pad} octets", where)
        else:
            refuse(ctx, st, "C11", key + ".padding", f"{what}: {pad} octets of padding", where)
        r.cipher = p.region
        PS = "C11 C03 C15"
    else:
        scoped = data
        if len(salt.o) != 0:
            refuse(ctx, st, "C03", key + ".octets", f"{what}: privacy parameters without privacy", where)
        PS = "C03 C15"
    if scoped.tag != 0x30 or len(scoped) != 3:
        raise NotBer("scoped PDU")
    pdu = scoped[2]
    rid = pdu[0]
    mr = pdu[2].o if op == "get_bulk" else None
    r.rid = rid.o
    r.pdu = pdu
    r.scoped = scoped
    ctxname = scoped[1].o
    if ctxname:
        refuse(ctx, st, "C03", key + ".context", f"{what}: context name of {len(ctxname)} octets", where)
    scoped_want = tlv(0x30, tlv(4, P(eng)), tlv(4), pdu_octets(op, rid.o, oids, mr))
    got = scoped.raw if hasattr(scoped, "raw") else tlv(scoped.tag, scoped.o)
    same_octets(ctx, st, [x.v if x.__class__ is B else x for x in got], scoped_want, PS + " C08 C17", key + ".scoped", f"{what}: scoped PDU", where)
    # Authentication
    if auth:
        i = len(r.o) - sum(len(x) for x in (data.o,)) - data.hl
        j = mac.off + mac.hl
        zeroed = r.o[:j] + [C(8, 0)] * 12 + r.o[j + 12 :]
        same_octets(ctx, st, mac.o, mac_of(ALG[auth], akey, zeroed), "C09", key + ".mac", f"{what}: msgAuthenticationParameters against HMAC-{ALG[auth].upper()}-96 of the whole message", where)
    check_ids(ctx, st, r, pdu, op, max_rep, key, what, where)
    return r


def tree_first(o):
    """The element at the start."""
    n = None
    for j in range(len(o), 0, -1):
        pass
    tag = o[0]
    if not isinstance(tag, Term) or tag.op != "c":
        raise NotBer("identifier of the scoped PDU")
    l = o[1].a if isinstance(o[1], Term) and o[1].op == "c" else None
    if l is None:
        raise NotBer("length of the scoped PDU")
    hl = 2
    if l >= 128:
        m = l & 127
        hl += m
        l = 0
        for j in range(m):
            l = l * 256 + o[2 + j].a
    if hl + l > len(o):
        raise NotBer("scoped PDU is cut")
    r = tree(o[: hl + l])[0]
    r.raw = P(o[: hl + l])
    return r


def be(t, n):
    """Octets of the number, most significant first."""
    b = T.bits(t)
    return [T.mkbits(b[8 * i : 8 * i + 8]) for i in reversed(range(n))]


def run_cfg(ctx, cfg):
    """Single requests of every kind."""
    cl = Client(ctx, cfg, oids=(4, 1, 7))
    mr = V(64, ("maxrep",), 0, (1 << 31) - 1)
    cases = [("get", (0,), None), ("get_many", (0, 1, 2), None), ("get_many", (1, 1), None), ("get_next", (2,), None), ("get_many", (), None)]
    if cl.ver != "v1":
        cases += [("get_bulk", (0,), mr)] if cfg in ("v2c",) else [("get_bulk", (0,), c64(20)), ("get_bulk", (0,), c64(200))]
    if cl.ver == "v3":
        cases.append(("refresh", (), None))
    for op, idx, m in cases:
        one(ctx, cl, cl.st, op, idx, m)
    done(ctx, cl, f"send.{cfg}")


def one(ctx, cl, st, op, idx, m=None, keep=None, **kw):
    """All the paths of one request from the given state; the states after it."""
    where = f"{cl.s.cls}::send_{op}"
    out = []
    n0 = len(list(st.events()))
    for s, v in cl.request(st, op, idx, m):
        d = sent(s, n0)
        if not is_ok(v):
            if d:
                refuse(ctx, s, "C17", f"wire.{cl.ver}.failed-sent", f"{cl.cfg} {op}: fails after sending", where)
            else:
                refuse(ctx, s, "C03 C17", f"wire.{cl.ver}.refused", f"{cl.cfg} {op}: a request which fits is refused: {str(v)[:100]}", where)
            continue
        if len(d) != 1:
            refuse(ctx, s, "C03", f"wire.{cl.ver}.one", f"{cl.cfg} {op}: {len(d)} datagrams are sent", where)
            continue
        r = check_sent(ctx, cl, s, d[0], op, [cl.oids[("o", i)] for i in idx], m, **kw)
        if r is not None:
            out.append((s, r))
    return out


def done(ctx, cl, key, props="C17 C03"):
    """Panics and parts out of reach."""
    bad = False
    I = cl.I
    P_ = props
    for st, alg, wk, k, wiv, iv in I.mismatch[:20]:
        for nm, a, b in (("key", wk, k), ("initialization vector", wiv, iv)):
            same_octets(ctx, st, octets(b), octets(a), "C11 C04", key + ".decrypt", f"{cl.cfg}: {nm} a reply is decrypted with", cl.s.cls)
    for p in I.panics:
        e = witness.search(p.st)
        if e is not None:
            bad = True
            ctx.bad(P_, key + ".panic", f"{p.kind} panic ({p.msg[:100]}) with {witness.describe(e)}", short(p.stack[-1]))
    if not bad:
        if I.unsup or I.panics:
            ctx.undecided(P_, key + ".panic", str(sorted(set(I.unsup))[:1])[:200] + f" {len(I.panics)} panics", cl.s.cls)
        else:
            ctx.ok(P_, key + ".panic", "no panic", cl.s.cls)


for _cfg in CONFIGS:
    _props = ["C03", "C15", "C17", "C08"]
    if _cfg.startswith("v3"):
        _props += ["C09", "C13"]
    if _cfg.endswith(("des", "aes")):
        _props += ["C11", "C14"]

    def _f(ctx, cfg=_cfg):
        run_cfg(ctx, cfg)

    _f.__doc__ = f"Requests of a {_cfg} session."
    unit(f"send-{_cfg}", *_props)(_f)
