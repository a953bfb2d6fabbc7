"""Requests taken apart again by the decoders of the library, and put together once more."""
import framework
from framework import unit
from e2e import *
import u_send
from u_send import Client, CONFIGS, named, check_sent, done
from u_recv import Msg, Wait, varbind, outcome
from u_again import plain, four_octets

MSG = {"v1": "snmp::msg::v1::SnmpV1Message", "v2c": "snmp::msg::v2c::SnmpV2cMessage", "v3": "SnmpV3Message"}


def fn_of(db, ty, trait, name):
    l = [f for f in db.local_fns() if f.name.endswith("::" + name) and ty in f.name.split(" as ")[0] and trait in f.name]
    if len(l) != 1:
        raise Missing(f"{name} of {ty}: {len(l)} candidates")
    return l[0]


def through(ctx, cl, st, o, ty, key, what):
    """Decode and encode the octets."""
    I = cl.I
    dec, enc = fn_of(ctx.db, ty, "TryFrom<&", "try_from"), fn_of(ctx.db, ty, "BerEncoder", "push_ber")
    data = find(ctx.db, "gufo_snmp::buf::buffer::Buffer::data")
    where = short(dec.name)
    st = st.clone()
    f = literal(I, st, o, ("round", ty))
    n = 0
    for s, v in cl.s._run(st, dec, [f]):
        ctx.n_paths += 1
        if not is_ok(v):
            refuse(ctx, s, "C15", key + ".refused", f"{what}: what is sent cannot be decoded: {outcome(v)}", where)
            continue
        s.cells[("in", "rmsg")] = v.f[0]
        s.cells[("in", "rbuf")] = empty_buffer(I, s, "rbuf", True)
        for s2, v2 in cl.s._run(s, enc, [Ref(("in", "rmsg"), ()), Ref(("in", "rbuf"), ())]):
            if not is_ok(v2):
                refuse(ctx, s2, "C15", key + ".again", f"{what}: what has been decoded cannot be encoded: {outcome(v2)}", where)
                continue
            for s3, d in cl.s._run(s2, data, [Ref(("in", "rbuf"), ())]):
                n += 1
                got = octets(I.slice_get(s3, d))
                same_octets(ctx, s3, got, P(o), "C15", key + ".same", f"{what}, decoded and encoded", where)
    return n


def scalars(v, path=()):
    """Integers of 64 bits in a structure: (path, name, value)."""
    if v.__class__ is not Agg:
        return
    names = [f[0] for f in v.ty.d["variants"][v.v]["fields"]] if v.ty is not None and v.ty.k == "adt" else []
    for i, x in enumerate(v.f):
        n = names[i] if i < len(names) else str(i)
        if isinstance(x, Term) and x.w == 64:
            yield path + (i,), n, x
        else:
            yield from ((p, n if q.isdigit() else f"{n}.{q}", y) for p, q, y in scalars(x, path + (i,)))


def put(v, path, x):
    f = list(v.f)
    f[path[0]] = put(f[path[0]], path[1:], x) if path[1:] else x
    return Agg(v.ty, v.v, tuple(f))


def fields(ctx, cl, st, o, ty, key, what):
    """The message as a value: any of its integers changed, encoded and decoded."""
    I = cl.I
    dec, enc = fn_of(ctx.db, ty, "TryFrom<&", "try_from"), fn_of(ctx.db, ty, "BerEncoder", "push_ber")
    data = find(ctx.db, "gufo_snmp::buf::buffer::Buffer::data")
    where = short(enc.name)
    st = st.clone()
    n = 0
    for s, v in cl.s._run(st, dec, [literal(I, st, o, ("fields", ty))])[:1]:
        if not is_ok(v):
            continue
        for path, name, old in list(scalars(v.f[0])):
            x = V(64, ("fld", name), 0, (1 << 31) - 1)
            m = put(v.f[0], path, x)
            s1 = s.clone()
            s1.cells[("in", "fmsg")] = m
            s1.cells[("in", "fbuf")] = empty_buffer(I, s1, "fbuf", True)
            for s2, v2 in cl.s._run(s1, enc, [Ref(("in", "fmsg"), ()), Ref(("in", "fbuf"), ())]):
                if not is_ok(v2):
                    refuse(ctx, s2, "C15", key + ".encodes", f"{what} with any {name}: it cannot be encoded: {outcome(v2)}", where)
                    continue
                for s3, d in cl.s._run(s2, data, [Ref(("in", "fbuf"), ())]):
                    f = literal(I, s3, octets(I.slice_get(s3, d)), ("again", name))
                    for s4, v4 in cl.s._run(s3, dec, [f]):
                        ctx.n_paths += 1
                        if not is_ok(v4):
                            refuse(ctx, s4, "C15", key + ".decodes", f"{what} with any {name}: what is encoded cannot be decoded: {outcome(v4)}", where)
                            continue
                        n += 1
                        for (p, q, a), (_, _, b) in zip(scalars(v4.f[0]), scalars(m)):
                            compare(ctx, s4, a, b, "C15", key + ".value", f"{what} with any {name}: {q} after encoding and decoding", where)
    return n


def run_round(ctx, cfg):
    cl = Client(ctx, cfg, oids=(4, 1, 7, 0, 130), steps=20_000_000)
    if "-" in cfg:
        four_octets(cl.I)
    w = Wait(ctx, cfg, cl=cl)
    cl, r0 = w.cl, w.r
    key = f"round.{cl.ver}"
    quiet = framework.Ctx(ctx.db, ctx.repo, ctx.tier, ctx.props)
    states = [("", w.st, None, None)]
    if cl.ver == "v3":
        for k in (4, 2):
            xb, xt = plain(("xb", k), k), plain(("xt", k), k)
            for st, v in w.recv([Msg(cl, r0, [varbind(cl.oids[("o", 0)], tlv(5))], boots=xb, time=xt)])[:1]:
                states.append((f" with boots and time of {k} octets", st, sint(xb), sint(xt)))
    mr = V(64, ("maxrep",), 0, (1 << 31) - 1)
    first = set()
    cases = [("get", (0,), None), ("get_many", (0, 1, 2), None), ("get_many", (), None), ("get_many", (4, 4), None), ("get_next", (2,), None)]
    if cl.ver != "v1":
        cases.append(("get_bulk", (0,), mr if "-" not in cfg else c64(20)))
    if cl.ver == "v3":
        cases.append(("refresh", (), None))
    k = 0
    for tag, st, b, t in states:
        for op, idx, m in cases:
            n0 = len(list(st.events()))
            for s, v in cl.request(st, op, idx, m):
                d = sent(s, n0)
                if not is_ok(v) or len(d) != 1:
                    continue
                if cfg == "v3" and not tag and op == "get":
                    # Identifiers of every size; those of four octets from now on
                    four_octets(cl.I)
                what = f"{cfg} {op}{tag}"
                o = octets(d[0])
                k += through(ctx, cl, s, o, MSG[cl.ver], key, what)
                if not tag and op not in first:
                    first.add(op)
                    k += fields(ctx, cl, s, o, MSG[cl.ver], key + ".field", what)
                if cl.priv:
                    try:
                        q = check_sent(quiet, cl, s, d[0], op, [cl.oids[("o", i)] for i in idx], m, boots=b, time=t)
                    except NotBer:
                        q = None
                    if q is not None and hasattr(q, "scoped"):
                        k += through(ctx, cl, s, octets(mkseq(q.scoped.raw)), "ScopedPdu", key + ".scoped", what)
    ctx.ok("C15", key + ".explored", f"{k} messages", MSG[cl.ver])
    done(ctx, cl, f"round.{cfg}", "C15")


for _cfg in ("v1", "v2c", "v3", "v3-sha", "v3-md5-des", "v3-sha-aes"):

    def _f(ctx, cfg=_cfg):
        run_round(ctx, cfg)

    _f.__doc__ = f"Requests of a {_cfg} session through the decoders."
    unit(f"round-{_cfg}", "C15")(_f)
