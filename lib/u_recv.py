"""What a reply does: which datagrams are delivered and how."""
import framework
from framework import unit
from e2e import *
import u_send
from u_send import Client, CONFIGS, named, mac_of, check_sent, be, CIPHER, ALG, done

OPS = ("get", "get_many", "get_next", "get_bulk", "refresh")


def varbind(oid, *value):
    return tlv(0x30, tlv(6, P(oid)), *value)


def resp_pdu(rid, vbs, tag=0xA2, err=(0,), idx=(0,)):
    return tlv(tag, tlv(2, P(rid)), tlv(2, P(err)), tlv(2, P(idx)), tlv(0x30, *vbs))


class Msg:
    """A response; the parts not given are those the session expects."""

    def __init__(self, cl, r, vbs=(), **kw):
        g = kw.get
        self.cl = cl
        rid = g("rid", r.rid)
        pdu = g("raw_pdu") or resp_pdu(rid, vbs, g("tag", 0xA2), g("err", (0,)), g("idx", (0,)))
        ver = g("ver", (VERS[cl.ver][1],))
        if cl.ver != "v3" or g("as_v2"):
            self.p = tlv(0x30, tlv(2, P(ver)), tlv(4, P(g("comm", cl.comm))), pdu)
            return
        auth, priv = g("auth", cl.auth), g("priv", cl.priv)
        flags = g("flags", (1 if auth else 0) | (2 if priv else 0))
        eng = g("eng", cl.eid)
        boots, time = g("boots", [9]), g("time", [17])
        scoped = g("scoped") or tlv(0x30, tlv(4, P(g("ceng", eng))), tlv(4, P(g("cname", ()))), pdu)
        self.scoped = scoped
        salt = g("salt", named("rsalt", 8) if priv else [])
        if priv and not g("clear"):
            name, bs = CIPHER[priv]
            k = g("pkey", cl.pkey)
            pl = list(scoped)
            n = seq_len(mkseq(pl)).a
            if priv == 1 and n % 8:
                pl += P([0] * (8 - n % 8))
            n = seq_len(mkseq(pl)).a
            if priv == 1:
                iv = [T.xor(k[8 + i], x if isinstance(x, Term) else C(8, x)) for i, x in enumerate(salt)]
            else:
                iv = octs4(boots) + octs4(time) + list(salt)
            plain = mkseq(pl).p
            reg = ("cipher", name, mkseq(P(k[:bs])).p, mkseq(P(iv)).p, plain, "NoPadding" if priv == 1 else "stream")
            data = tlv(4, [S(reg, ZERO, c64(n), None)])
        else:
            data = scoped
        if g("data") is not None:
            data = g("data")
        user = g("user", cl.user)

        def whole(mac):
            return tlv(0x30, tlv(2, P(ver)), tlv(0x30, tlv(2, P(g("msgid", r.msgid))), tlv(2, P(g("maxsz", [0x08, 0])), ), tlv(4, P(flags)), tlv(2, P(g("model", [3])))),
                       tlv(4, tlv(0x30, tlv(4, P(eng)), tlv(2, P(boots)), tlv(2, P(time)), tlv(4, P(user)), tlv(4, P(mac)), tlv(4, P(salt)))), data)

        if "mac" in kw:
            self.p = whole(kw["mac"])
        elif auth:
            self.p = whole(mac_of(ALG[auth], g("akey", cl.akey), octets(mkseq(whole([0] * 12)))))
        else:
            self.p = whole([])


def octs4(o):
    """Four octets of the INTEGER, non-negative."""
    o = [x if isinstance(x, Term) else C(8, x) for x in o]
    return be(T.trunc(sint(o), 32), 4)


def want_mac(cl, p, mac, akey=None):
    """Octets of the right MAC of the message with these octets there."""
    o = octets(mkseq(p))
    i = next(j for j in range(len(o)) if o[j] is mac[0])
    z = o[:i] + [C(8, 0)] * 12 + o[i + 12 :]
    return mac_of(ALG[cl.auth], akey or cl.akey, z)


def all_eq(a, b):
    a = [x if isinstance(x, Term) else C(8, x) for x in a]
    b = [x if isinstance(x, Term) else C(8, x) for x in b]
    if len(a) != len(b):
        return [FALSE]
    return [T.eq(x, y) for x, y in zip(a, b)]


def outcome(v):
    """Kind of the result of a call: ok, or the exception."""
    if is_ok(v):
        return "ok"
    m = re.search(r"Py(\w+Error|\w+Instance)|(Snmp\w+|NoSuchInstance|BlockingIOError|TimeoutError|StopAsyncIteration|StopIteration|ValueError|OSError|ConnectionRefusedError)", str(v))
    return m.group(0) if m else str(v)[:60]


def pyint_of(v):
    from u_value import pyint_value
    return pyint_value(v)


class Wait:
    """A session with an outstanding request."""

    def __init__(self, ctx, cfg, op="get", ridn=4, msgn=4, oids=(4, 1, 7), cl=None, idx=(0,), max_rep=None, st=None, **kw):
        self.ctx, self.cfg, self.op = ctx, cfg, op
        self.cl = cl or Client(ctx, cfg, oids=oids, **kw)
        cl = self.cl
        self.all = []
        self.iter = None
        quiet = framework.Ctx(ctx.db, ctx.repo, ctx.tier, ctx.props)
        st = st or cl.st
        mr = max_rep if max_rep is not None else (c64(20) if op == "get_bulk" else None)
        if op in ("get_next", "get_bulk"):
            its = cl.s.getiter(st, cl.oids[("o", idx[0])], mr)
            if len(its) != 1:
                raise Missing("GetIter is not made")
            st, self.iter = its[0]
            n0 = len(list(st.events()))
            outs = [(s, v) for s, v in cl.s.call(st, "send_" + op, [self.iter])]
        else:
            n0 = len(list(st.events()))
            outs = cl.request(st, op, idx, mr)
        for s, v in outs:
            d = sent(s, n0)
            if is_ok(v) and len(d) == 1:
                r = check_sent(quiet, cl, s, d[0], op, [cl.oids[("o", i)] for i in (idx if op != "refresh" else ())], mr)
                if r is not None and hasattr(r, "ridv"):
                    self.all.append((s, r))
        self.pick = [(s, r) for s, r in self.all if (ridn is None or len(r.rid) == ridn) and (cl.ver != "v3" or msgn is None or len(r.msgid) == msgn)]
        if not self.pick:
            raise Missing(f"{cfg} {op}: no request of the shape due")
        self.st, self.r = self.pick[0]
        self.where = f"{cl.s.cls}::recv_{op}"

    def recv(self, queue, st=None):
        cl = self.cl
        cl.s.queue = [m.p if isinstance(m, Msg) else m for m in queue]
        s = (st or self.st).clone()
        return cl.s.call(s, "recv_" + self.op, [self.iter] if self.iter is not None else [])


def accept_cases(cl, r):
    """(name, fields, conditions for delivery)"""
    out = []
    ridv = r.ridv
    n = lambda nm, k: named(nm, k)
    if cl.ver != "v3":
        c = n("rc", len(cl.comm))
        out.append(("community", dict(comm=c), all_eq(c, cl.comm)))
        for k in (0, len(cl.comm) - 1, len(cl.comm) + 1):
            out.append((f"community of {k} octets", dict(comm=n("rc", k)), [FALSE]))
        rr = n("rr", 4)
        out.append(("community and request-id", dict(comm=c, rid=rr), all_eq(c, cl.comm) + [T.eq(sint(rr), ridv)]))
    else:
        for k in (1, 2, 3, 4, 5, 8):
            m = n("rm", k)
            out.append((f"message id of {k} octets", dict(msgid=m), [T.eq(sint(m), r.msgidv)]))
        u = n("ru", len(cl.user))
        out.append(("user name", dict(user=u), all_eq(u, cl.user)))
        for k in (0, len(cl.user) - 1, len(cl.user) + 1):
            out.append((f"user name of {k} octets", dict(user=n("ru", k)), [FALSE]))
        e = n("re", len(cl.eid))
        if cl.eid:
            out.append(("engine id", dict(eng=e), all_eq(e, cl.eid)))
            for k in (0, len(cl.eid) - 1, len(cl.eid) + 1):
                out.append((f"engine id of {k} octets", dict(eng=n("re", k)), [FALSE]))
        rr, m = n("rr", 4), n("rm", 4)
        out.append(("all the identifiers", dict(user=u, eng=e, msgid=m, rid=rr), all_eq(u, cl.user) + all_eq(e, cl.eid) + [T.eq(sint(m), r.msgidv), T.eq(sint(rr), ridv)]))
    for k in (1, 2, 3, 4, 5, 8):
        rr = n("rr", k)
        out.append((f"request-id of {k} octets", dict(rid=rr), [T.eq(sint(rr), ridv)]))
    return out


def auth_cases(cl, r):
    out = []
    if cl.ver != "v3":
        return out
    if cl.auth:
        f = byte("rf", 0)
        out.append(("flags", dict(flags=f), [T.eq(T.and_(f, C(8, 1)), C(8, 1))]))
        out.append(("flag cleared", dict(flags=2 if cl.priv else 0), [FALSE]))
        out.append(("MAC", dict(mac=named("rmac", 12)), "mac"))
        out.append(("no MAC", dict(mac=[]), [FALSE]))
        out.append(("zero MAC", dict(mac=[0] * 12), "zero"))
        for k in (11, 13, 24):
            out.append((f"MAC of {k} octets", dict(mac=named("rmac", k)), [FALSE]))
        out.append(("no MAC, flag cleared", dict(mac=[], flags=0), [FALSE]))
    if cl.priv:
        out.append(("sent in clear", dict(clear=1), [FALSE]))
        out.append(("sent in clear, flag cleared", dict(clear=1, flags=1), [FALSE]))
        out.append(("sent in clear, no flags, no MAC", dict(clear=1, flags=0, mac=[], salt=[]), [FALSE]))
        out.append(("sent in clear without salt", dict(clear=1, salt=[]), [FALSE]))
    return out


def acceptance(ctx, w, cases, props, key, skip=True):
    cl, r = w.cl, w.r
    va, vb = named("va", 1), named("vb", 1)
    vbs = lambda x: [varbind(cl.oids[("o", 0)], tlv(2, x))]
    good = Msg(cl, r, vbs(vb))
    for nm, kw, conds in cases:
        m = Msg(cl, r, vbs(va), **kw)
        if conds == "mac":
            conds = all_eq(kw["mac"], want_mac(cl, m.p, kw["mac"]))
        elif conds == "zero":
            z = mac_of(ALG[cl.auth], cl.akey, octets(mkseq(m.p)))
            conds = all_eq(kw["mac"], z)
        what = f"{cl.cfg} {w.op}: reply with other {nm}" if True else ""
        one = 0
        for st, v in w.recv([m, good]):
            n = st.cells[("recvno",)]
            k = key + "." + re.sub(r"\W+", "-", nm)
            o = outcome(v)
            if o != "ok":
                refuse(ctx, st, "C04", k + ".failed", f"{what}: the call ends with {o} after {n} datagrams, a matching reply comes later", w.where)
                continue
            if n == 1:
                for c in conds:
                    if not holds(ctx, st, c, props, k + ".taken", f"{what} is delivered: the match", w.where):
                        break
                if w.op != "refresh":
                    t = pyint_of(v.f[0])
                    if t is not None:
                        compare(ctx, st, t, T.sext(va[0], t.w), "C04 C02", k + ".value", what, w.where)
            elif n == 2:
                if skip:
                    fails(ctx, st, conds, "C04 C18", k + ".dropped", f"{what}: a matching reply is skipped", w.where)
                if w.op != "refresh":
                    t = pyint_of(v.f[0])
                    if t is not None:
                        compare(ctx, st, t, T.sext(vb[0], t.w), "C04 C02", k + ".value2", what, w.where)
            one += 1
        if one:
            ctx.ok("C04", key + ".explored", f"{one} paths", w.where)


def run_accept(ctx, cfg):
    w = Wait(ctx, cfg)
    acceptance(ctx, w, accept_cases(w.cl, w.r), "C04", f"accept.{w.cl.ver}")
    acceptance(ctx, w, auth_cases(w.cl, w.r), "C10 C04", f"auth.{cfg}")
    if "-" not in cfg:
        versions(ctx, w)
        pdus(ctx, w)
        errors(ctx, w)
    else:
        unsure(ctx, w)
    earlier(ctx, w)
    # Every size of the identifiers
    for s, r in w.all:
        acceptance(ctx, Picked(w, s, r), [("same identifiers", {}, [])], "C04", f"accept.{w.cl.ver}")
    done(ctx, w.cl, f"accept.{cfg}", "C01")


def ended(ctx, w, key, what, queue, conds, props="C04", skip=True, decode=None):
    """The call ends with the first datagram if and only if the conditions hold; with SnmpDecodeError for `decode`."""
    for st, v in w.recv(queue):
        n = st.cells[("recvno",)]
        o = outcome(v)
        if n == 1:
            if o == "ok" or not decode:
                for c in conds:
                    if not holds(ctx, st, c, props, key + ".taken", f"{what} {'is delivered' if o == 'ok' else 'ends the call with ' + o}: the match", w.where):
                        break
            elif "SnmpDecodeError" in o:
                fails(ctx, st, conds, props, key + ".dropped", f"{what}: a matching reply ends with {o}", w.where)
            else:
                refuse(ctx, st, props, key + ".error", f"{what}: the call ends with {o}", w.where)
        elif decode:
            refuse(ctx, st, props, key + ".skipped", f"{what}: the call goes on", w.where)
        elif o != "ok":
            refuse(ctx, st, props, key + ".failed", f"{what}: the call ends with {o} after {n} datagrams, a matching reply comes later", w.where)
        elif skip:
            fails(ctx, st, conds, props, key + ".dropped", f"{what}: a matching reply is skipped", w.where)


def versions(ctx, w):
    """Messages of other versions."""
    cl, r = w.cl, w.r
    vbs = [varbind(cl.oids[("o", 0)], tlv(2, named("va", 1)))]
    good = Msg(cl, r, [varbind(cl.oids[("o", 0)], tlv(2, named("vb", 1)))])
    mine = VERS[cl.ver][1]
    for k in (1, 2, 4, 5, 8):
        o = named("ver", k)
        ended(ctx, w, f"accept.{cl.ver}.version", f"{cl.cfg} {w.op}: reply with version of {k} octets", [Msg(cl, r, vbs, ver=o), good], [T.eq(sint(o), c64(mine))], decode=True)
    if cl.ver == "v3":
        for ver in (0, 1, 3):
            m = Msg(cl, r, vbs, as_v2=1, ver=(ver,), comm=cl.user)
            ended(ctx, w, f"accept.{cl.ver}.community-based", f"{cl.cfg} {w.op}: a community-based message with version {ver}", [m, good], [FALSE], decode=True)


def pdus(ctx, w):
    """Other PDUs: those to other requests do not end the wait."""
    cl, r = w.cl, w.r
    vbs = [varbind(cl.oids[("o", 0)], tlv(5))]
    good = Msg(cl, r, [varbind(cl.oids[("o", 0)], tlv(2, named("vb", 1)))])
    for tag, nm in ((0xA0, "GetRequest"), (0xA1, "GetNextRequest"), (0xA2, "GetResponse with an error"), (0xA5, "GetBulkRequest")):
        if tag == 0xA5 and cl.ver == "v1":
            continue
        for k in (1, 4):
            rr = named("rr", k)
            m = Msg(cl, r, vbs, rid=rr, tag=tag, err=(5,) if tag == 0xA2 else (0,))
            ended(ctx, w, f"accept.{cl.ver}.{nm.split()[0]}", f"{cl.cfg} {w.op}: {nm} with other request-id of {k} octets", [m, good], [T.eq(sint(rr), r.ridv)])


def errors(ctx, w):
    """Replies with any error-status and error-index, with and without variables."""
    cl = w.cl
    fixed = [0x2B, 6, 1, 4, 1]
    for op in ("get", "get_many", "get_next", "get_bulk"):
        if op == "get_bulk" and cl.ver == "v1":
            continue
        try:
            w2 = Wait(ctx, w.cfg, op, cl=cl)
        except Missing:
            continue
        for ke, ki in ((1, 1), (2, 1), (1, 4), (1, 8)):
            for n in (0, 1, 2):
                m = Msg(cl, w2.r, [varbind(fixed, tlv(2, named("va", 1)))] * n, err=named("err", ke), idx=named("eidx", ki))
                outs = w2.recv([m])
                ctx.ok("C01", f"accept.{cl.ver}.error-status", f"{len(outs)} paths", w2.where)


def unsure(ctx, w):
    """Other than responses without an error, without the authentication due."""
    cl, r = w.cl, w.r
    va = [varbind(cl.oids[("o", 0)], tlv(2, named("va", 1)))]
    good = Msg(cl, r, [varbind(cl.oids[("o", 0)], tlv(2, named("vb", 1)))])
    full = 1 | (2 if cl.priv else 0)
    ways = [("without authentication", dict(flags=full & 2, mac=[])), ("without MAC", dict(mac=[])), ("with the flag cleared", dict(flags=full & 2)), ("with another MAC", dict(mac=named("rmac", 12)))]
    if cl.priv:
        ways += [("in clear", dict(clear=1, flags=0, mac=[], salt=[])), ("in clear, authenticated", dict(clear=1, flags=1, salt=[]))]
    for nm, kw in ways:
        for what, more, vbs in (("a response with an error-status", dict(err=(5,), idx=(1,)), va), ("a response with noSuchName", dict(err=(2,), idx=(1,)), va), ("a response without variables", {}, []),
                                ("a response with noSuchInstance", {}, [varbind(cl.oids[("o", 0)], tlv(0x81))]), ("a response with NULL", {}, [varbind(cl.oids[("o", 0)], tlv(5))])):
            m = Msg(cl, r, vbs, **kw, **more)
            conds = all_eq(kw["mac"], want_mac(cl, m.p, kw["mac"])) if nm == "with another MAC" else [FALSE]
            ended(ctx, w, f"auth.{cl.cfg}.other", f"{cl.cfg} {w.op}: {what} {nm}", [m, good], conds, "C10 C04")


def earlier(ctx, w):
    """Replies to the request before."""
    cl, r = w.cl, w.r
    fixed = [0x2B, 6, 1, 4, 1]
    for op in ("get", "get_many") if "-" not in w.cfg else ("get",):
        try:
            w2 = Wait(ctx, w.cfg, op, cl=cl, st=w.st)
        except Missing:
            continue
        vbs = [varbind(fixed, tlv(2, named("va", 1)))]
        good = Msg(cl, w2.r, [varbind(fixed, tlv(2, named("vb", 1)))])
        same = [T.eq(sint(r.rid), w2.r.ridv)]
        cs = [("", dict(rid=r.rid), same)]
        if cl.ver == "v3":
            sm = [T.eq(sint(r.msgid), w2.r.msgidv)]
            cs += [(", by its request-id and message id", dict(rid=r.rid, msgid=r.msgid), same + sm), (", by its message id", dict(msgid=r.msgid), sm)]
        for nm, kw, conds in cs:
            ended(ctx, w2, f"accept.{cl.ver}.earlier", f"{cl.cfg} {op}: reply to the request before{nm}", [Msg(cl, w2.r, vbs, **kw), good], conds)


class Picked:
    def __init__(self, w, s, r):
        self.__dict__.update(w.__dict__)
        self.st, self.r = s, r

    def recv(self, queue, st=None):
        return Wait.recv(self, queue, st)


for _cfg in CONFIGS:
    _props = ["C01", "C02", "C04", "C18"] + (["C10"] if "-" in _cfg else []) + (["C11"] if _cfg.endswith(("des", "aes")) else [])

    def _f(ctx, cfg=_cfg):
        run_accept(ctx, cfg)

    _f.__doc__ = f"Which replies a {_cfg} session delivers."
    unit(f"accept-{_cfg}", *_props)(_f)
