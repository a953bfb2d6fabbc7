"""Requests after other requests and replies, and requests of every size around that of the buffer."""
import framework
from framework import unit
from e2e import *
import u_send
from u_send import Client, CONFIGS, named, check_sent, one, done, be
from u_recv import Msg, Wait, varbind, outcome


def number(o):
    """Octets as an unsigned number, most significant first."""
    b = []
    for x in reversed(o):
        b += T.bits(x)
    return T.mkbits(b)


def capacity(ctx, I):
    """Size of the message buffer: the array of octets within the Buffer."""
    best = None
    for v in roles(ctx.db).ty.d.get("variants", ()):
        for _, i in v["fields"]:
            t = I.T[i]
            if t.k == "array" and isinstance(t.d.get("len"), int) and t.d["sz"] == t.d["len"]:
                best = max(best or 0, t.d["len"])
    return best


def later(ctx, cl, s, r, op, idx, m, what, prev, **kw):
    """One more request; `prev` are the salts used so far."""
    res = one(ctx, cl, s, op, idx, m, tag=" " + what, **kw)
    where = f"{cl.s.cls}::send_{op}"
    for s2, r2 in res:
        if cl.priv:
            for step, p in prev:
                if not r2.salt or len(r2.salt) != len(p):
                    continue
                lo = 4 if cl.priv == 1 else 0
                a, b = number(p[lo:]), number(r2.salt[lo:])
                n = number(p)
                fails(ctx, s2, [T.eq(a, b), T.eq(n, number(r2.salt))], "C14", f"again.{cl.cfg}.repeat", f"{cl.cfg} {op} {what}: the salt is that of an earlier message", where)
                if step:
                    compare(ctx, s2, b, T.add(a, C(a.w, step)), "C14", f"again.{cl.cfg}.step", f"{cl.cfg} {op} {what}: the counter of the salt after {step} messages", where)
        if cl.ver == "v3" and r is not None and kw.get("boots") is None:
            pass
    return [x for x in res if len(x[1].rid) == 4 and (cl.ver != "v3" or len(x[1].msgid) == 4)]


def plain(name, n):
    """Octets of an INTEGER which is not negative and has no shorter form."""
    o = named(name, n)
    b = T.bits(o[0])
    o[0] = T.mkbits(list(b[:6]) + [1 if n > 1 else b[6], 0])
    return o


def bigger(prev, salt):
    return [(n and n + 1, p) for n, p in prev] + [(1, salt)]


def four_octets(I):
    """The identifiers drawn from now on take four octets (the others sizes are up to the other units)."""

    def rnd(I, st, c):
        w = I.tw(c.dty)
        if w < 32:
            return NotImplemented
        b = list(T.bits(V(w, ("random", next(I.ids)))))
        b[30] = 1
        return T.mkbits(b)

    I.overrides.insert(0, (lambda c: c.rname in ("rand::Rng::random", "rand::Rng::gen"), rnd))


def run_again(ctx, cfg):
    big = [S(("bigoid",), ZERO, c64(4100), None)]
    cl = Client(ctx, cfg, oids=(4, 1, 7, big))
    four_octets(cl.I)
    w = Wait(ctx, cfg, "get", cl=cl)
    cl, s0, r0 = w.cl, w.st, w.r
    mr = c64(20)
    other = [("get_many", (2, 0), None), ("get_next", (1,), None), ("get", (0,), None)]
    if cl.ver != "v1":
        other.insert(1, ("get_bulk", (2,), mr))
    salts = bigger([], r0.salt) if cl.ver == "v3" else []
    # One request after the other
    def chain(s, r, pv, todo):
        if not todo:
            return
        op, idx, m = todo[0]
        for s, r in later(ctx, cl, s, r, op, idx, m, "after other requests", pv)[:2]:
            chain(s, r, bigger(pv, r.salt) if cl.ver == "v3" else pv, todo[1:])

    for s, r in w.pick[:3]:
        chain(s, r, bigger([], r.salt) if cl.ver == "v3" else [], other)
    # After replies
    vb = lambda n: [varbind(cl.oids[("o", 0)], tlv(4, [S(("rv",), ZERO, c64(n), None)]))]
    v3 = dict(boots=c64(9), time=c64(17)) if cl.ver == "v3" else {}
    cases = [("after a reply", [Msg(cl, r0, vb(3))], v3, True), ("after a long reply", [Msg(cl, r0, vb(300))], v3, True),
             ("after a reply to another request", [Msg(cl, r0, vb(5), rid=[1])], {}, False),
             ("after a datagram which is no message", [P([0x30, 3, 2, 1, 77])], {}, False),
             ("after an empty datagram", [[]], {}, False),
             ("after a timeout", [], {}, False)]
    if cl.ver == "v3":
        for kb, kt in ((4, 4), (1, 4), (4, 1), (3, 2)):
            xb, xt = plain(("xb", kb), kb), plain(("xt", kt), kt)
            cases.append((f"after a reply with engine boots of {kb} and time of {kt} octets", [Msg(cl, r0, vb(3), boots=xb, time=xt)], dict(boots=sint(xb), time=sint(xt)), True))
        cases.append(("after a message which cannot be decrypted", [Msg(cl, r0, vb(5), flags=3, salt=named("xs", 8 if cl.priv == 1 else 7), data=tlv(4, [S(("junk",), ZERO, c64(23), None)]))], {}, False))
        if cl.auth:
            cases.append(("after a forged reply", [Msg(cl, r0, vb(5), mac=[1] * 12, boots=[5], time=[6])], {}, False))
            cases.append(("after a reply of another user", [Msg(cl, r0, vb(5), user=named("xu", len(cl.user) + 1), boots=[5], time=[6])], {}, False))
    for what, q, kw, must in cases:
        seen = set()
        for st, v in w.recv(q):
            o = outcome(v)
            if must != (o == "ok"):
                # The MAC may be right by chance
                continue
            if o in seen:
                continue
            seen.add(o)
            later(ctx, cl, st, r0, "get_many", (1, 0), None, what, salts, **kw)
    # After a request which does not fit
    n0 = len(list(s0.events()))
    k = 0
    for st, v in cl.request(s0, "get", (3,)):
        where = f"{cl.s.cls}::send_get"
        if is_ok(v) or sent(st, n0):
            refuse(ctx, st, "C17", f"again.{cfg}.oversize", f"{cfg}: a request of more than 4100 octets is sent", where)
            continue
        o = outcome(v)
        oversize_error(ctx, st, v, cfg, where)
        if k < 2:
            k += 1
            later(ctx, cl, st, r0, "get", (0,), None, "after an oversized request", [(0, p) for _, p in salts])
    done(ctx, cl, f"again.{cfg}", "C17 C03")


def oversize_error(ctx, st, v, cfg, where):
    o = outcome(v)
    if "SnmpEncodeError" in o:
        ctx.ok("C17", f"fit.{cfg}.error", o, where)
    else:
        refuse(ctx, st, "C17", f"fit.{cfg}.error", f"{cfg}: an oversized request ends with {o}", where)


for _cfg in CONFIGS:
    _props = ["C03", "C17"]
    if _cfg.startswith("v3"):
        _props += ["C13"]
    if "-" in _cfg:
        _props += ["C09"]
    if _cfg.endswith(("des", "aes")):
        _props += ["C11", "C14"]

    def _f(ctx, cfg=_cfg):
        run_again(ctx, cfg)

    _f.__doc__ = f"Requests of a {_cfg} session after other requests and replies."
    unit(f"again-{_cfg}", *_props)(_f)


def run_fit(ctx, cfg):
    """Sizes around the capacity: sent complete, or refused with the error due."""
    cl = Client(ctx, cfg, oids=(4,))
    four_octets(cl.I)
    cap = capacity(ctx, cl.I)
    cl.oids[("o", 7)] = named("after", 4)
    if cap is None or cap > 8000:
        ctx.undecided("C17", f"fit.{cfg}.window", "the capacity of the buffer is not found", "gufo_snmp::buf::buffer::Buffer")
        return
    where = f"{cl.s.cls}::send_get"

    def go(sizes, op):
        """(state, error, datagrams) for requests of OIDs of these sizes"""
        idx = []
        for i, n in enumerate(sizes):
            cl.oids[("o", i)] = [S(("long", i), ZERO, c64(n), None)]
            idx.append(i)
        n0 = len(list(cl.st.events()))
        for st, v in cl.request(cl.st, op, tuple(idx)):
            yield st, v, sent(st, n0), idx

    for op, base in (("get", []), ("get_many", [1200, 900])):
        probe = None
        for st, v, d, idx in go(base + [cap - 2000 - sum(base) // 2], op):
            if is_ok(v) and len(d) == 1:
                probe = len(octets(d[0]))
        if probe is None:
            ctx.undecided("C17", f"fit.{cfg}.window", f"{op}: no probe", where)
            continue
        # What is behind the long OID, with the last of them grown to the capacity
        n1 = cap - 2000 - sum(base) // 2
        slack = cap - probe
        step = 16 if cl.priv == 2 else 8 if cl.priv else 1
        full = n1 + slack
        hdr = probe - n1 - sum(base)
        ds = list(range(-2 - step, 6 + step)) + list(range(6 + step, hdr + 8, 1 if not cl.priv else 7))
        if base:
            ds = ds[:: 3 if not cl.priv else 9]
        fit = 0
        for d in ds:
            for st, v, got, idx in go(base + [full + d], op):
                what = f"{cfg} {op}: request with OIDs of {base + [full + d]} octets"
                if not base:
                    one(ctx, cl, st, "get", (7,), None, tag=f" after a request of {full + d - n1 + probe} octets")
                if is_ok(v):
                    if len(got) != 1:
                        refuse(ctx, st, "C17", f"fit.{cfg}.one", f"{what}: {len(got)} datagrams are sent", where)
                    else:
                        fit += 1
                        check_sent(ctx, cl, st, got[0], op, [cl.oids[("o", i)] for i in idx], tag=f" of {len(octets(got[0]))} octets")
                    continue
                if got:
                    refuse(ctx, st, "C17", f"fit.{cfg}.sent", f"{what} is sent and fails", where)
                elif d <= -step:
                    refuse(ctx, st, "C17", f"fit.{cfg}.refused", f"{what} fits the buffer of {cap} octets ({cap - full - d - hdr - sum(base)} are left or more), it ends with {outcome(v)}", where)
                else:
                    oversize_error(ctx, st, v, cfg, where)
        ctx.ok("C17", f"fit.{cfg}.window", f"{op}: {len(ds)} sizes, {fit} fit", where)
    done(ctx, cl, f"fit.{cfg}", "C17")


for _cfg in CONFIGS:

    def _g(ctx, cfg=_cfg):
        run_fit(ctx, cfg)

    _g.__doc__ = f"Requests of a {_cfg} session which nearly fit."
    _props = ["C17", "C03"] + (["C09"] if "-" in _cfg else []) + (["C11", "C14"] if _cfg.endswith(("des", "aes")) else [])
    unit(f"fit-{_cfg}", *_props)(_g)


def run_ident(ctx, cfg):
    """Communities, user names and engine ids of many sizes."""
    v3 = cfg.startswith("v3")
    sizes = [dict(elen=e, ulen=u) for e, u in ((32, 32), (12, 1), (5, 14), (17, 127), (9, 128), (9, 300), (11, 255), (11, 256))] if v3 else [dict(clen=n) for n in (0, 1, 2, 100, 127, 128, 129, 255, 256, 300)]
    if cfg.endswith("des") or cfg.endswith("aes"):
        sizes = sizes[:1] + sizes[3:5]
    for kw in sizes:
        try:
            cl = Client(ctx, cfg, oids=(6, 3), **kw)
        except Missing:
            ctx.undecided("C03 C17", f"ident.{cfg}.made", f"no session with {kw}", cfg)
            continue
        four_octets(cl.I)
        what = " ".join(f"{k}={v}" for k, v in kw.items())
        one(ctx, cl, cl.st, "get_many", (0, 1), tag=f" with {what}")
        done(ctx, cl, f"ident.{cfg}", "C17 C03")


for _cfg in CONFIGS:
    _props = ["C03", "C17"] + (["C09"] if "-" in _cfg else []) + (["C11", "C14"] if _cfg.endswith(("des", "aes")) else [])

    def _h(ctx, cfg=_cfg):
        run_ident(ctx, cfg)

    _h.__doc__ = f"Requests of a {_cfg} session with credentials of many sizes."
    unit(f"ident-{_cfg}", *_props)(_h)
