"""SNMPv3 sessions: the engine of the agent is found, and its id, boots and time are followed."""
import copy

from framework import unit
from e2e import *
from u_again import four_octets
from u_keys import KT, Keyed, Late, pairs
from u_recv import Msg, varbind, outcome
from u_send import CONFIGS, KS, named, done, one


def changed(cl, **kw):
    """The session as it is from now on."""
    c = copy.copy(cl)
    c.__dict__.update(kw)
    return c


class Deferred(Keyed):
    """Session without an engine id: the user comes later."""

    user0 = ()

    def _v3(self, I, st):
        lit = lambda nm, o: literal(I, st, o, nm)
        return [VecV(Seq(())), VecV(mkseq(P(self.user0))), C(8, 0), lit("akey", []), C(8, 0), lit("pkey", [])]


def number(st, name, n):
    """Octets of a non-negative INTEGER of the given size, and its value."""
    if n == 0:
        return [0], c64(0)
    o = named(name, n)
    top = T.bits(o[0])
    st.assume(V_eq(T.mkbits(top[7:]), 0), True)
    if n > 1:
        # No shorter form
        nine = T.mkbits(T.bits(o[1])[7:] + T.bits(o[0]))
        st.assume(V_eq(nine, 0), False)
    return o, sint(o)


def V_eq(t, k):
    return T.eq(t, C(t.w, k))


def engine_is(ctx, cl, st, want, key, what):
    """What the session says of the engine."""
    where = f"{cl.s.cls}::get_engine_id"
    for s, v in cl.s.call(st.clone(), "get_engine_id"):
        x = v.f[0] if is_ok(v) else None
        if x.__class__ is Nat and x.kind == "pybytes" and x.a[0].__class__ is Seq:
            same_octets(ctx, s, octets(x.a[0]), list(want), "C13", key + ".engine-id", what, where)
        elif is_ok(v):
            ctx.undecided("C13", key + ".engine-id", str(v)[:80], where)
        else:
            refuse(ctx, s, "C13", key + ".engine-id", f"{what}: get_engine_id fails", where)


def deliver(ctx, cl, st, r, op, queue, key, what, want="ok"):
    """States after the datagrams."""
    w = Late(ctx, cl, st, r, op)
    out = []
    for s, v in w.recv(queue):
        o = outcome(v)
        if o != want:
            refuse(ctx, s, "C13", key + ".taken", f"{what}: the call ends with {o}", w.where)
        else:
            ctx.ok("C13", key + ".taken", what, w.where)
            out.append(s)
    return out


def report(cl, r, **kw):
    """Report below the level of security of the session."""
    d = dict(tag=0xA8, auth=0, priv=0, flags=0, mac=[], salt=[], clear=1)
    d.update(kw)
    vb = [varbind([0x2B, 6, 1, 6, 3, 15, 1, 1, 4, 0], tlv(0x41, [1]))]
    return Msg(cl, r, vb, **d)


def discovery(ctx, cfg, at, pt, elen, bn, deep):
    cl0 = Deferred(ctx, cfg, at, pt, oids=(4,), elen=elen)
    four_octets(cl0.I)
    key = f"engine.{cfg}"
    tag = f" ({at}/{pt} keys, engine id of {elen} octets)"
    eid = cl0.eid
    bare = changed(cl0, auth=0, priv=0, user=list(cl0.user0), eid=[])
    # The probe
    for s, r in one(ctx, bare, cl0.st, "refresh", (), tag=" to find the engine" + tag)[:1]:
        engine_is(ctx, bare, s, [], key, cfg + tag + ", nothing received")
        s = s.clone()
        b1, b1v = number(s, "b1", bn)
        t1, t1v = number(s, "t1", bn)
        rep = report(bare, r, eng=eid, boots=b1, time=t1, user=list(cl0.user0))
        stray = report(bare, r, eng=named("xe", 6), boots=[5], time=[6], user=list(cl0.user0), msgid=list(r.msgid[:-1]) + [T.xor(r.msgid[-1], C(8, 1))])
        for s in deliver(ctx, bare, s, r, "refresh", [stray, rep] if deep else [rep], key + ".discover", cfg + tag + ": Report")[:1]:
            engine_is(ctx, bare, s, eid, key, cfg + tag + ", after the Report")
            # The user
            full = changed(cl0)
            full.setup(eid, "akey", "pkey")
            outs = full.s.call(s, "set_keys", [VecV(mkseq(P(cl0.user)))] + cl0.keyargs(cl0.I, s))
            for s, v in outs:
                if not is_ok(v):
                    refuse(ctx, s, "C13 C12", key + ".set-keys", f"{cfg}{tag}: set_keys fails with {outcome(v)}", f"{cl0.s.cls}::set_keys")
                    continue
                ctx.ok("C13", key + ".set-keys", tag, f"{cl0.s.cls}::set_keys")
                synced(ctx, full, s, b1v, t1v, bn, key, tag, deep)
    done(ctx, cl0, key, "C13")


def synced(ctx, cl, s, b, t, bn, key, tag, deep):
    """The engine is known, the user is set: the time is synchronized, and followed from then on."""
    cfg = cl.cfg
    for s, r in one(ctx, cl, s, "refresh", (), tag=" to get the time" + tag, boots=b, time=t)[:1]:
        s = s.clone()
        b2, b2v = number(s, "b2", bn)
        t2, t2v = number(s, "t2", bn)
        answers = [("Report", Msg(cl, r, [varbind([0x2B, 6, 1, 6, 3, 15, 1, 1, 2, 0], tlv(0x41, [1]))], tag=0xA8, boots=b2, time=t2)), ("response", Msg(cl, r, [], boots=b2, time=t2))]
        for nm, m in answers if deep else answers[:1]:
            for s1 in deliver(ctx, cl, s, r, "refresh", [m], key + ".sync", f"{cfg}{tag}: {nm} with the time")[:1]:
                engine_is(ctx, cl, s1, cl.eid, key, f"{cfg}{tag}, after the time is got")
                follow(ctx, cl, s1, b2v, t2v, bn, key, tag, deep)


def follow(ctx, cl, s, b, t, bn, key, tag, deep):
    cfg = cl.cfg
    vbs = [varbind(cl.oids[("o", 0)], tlv(2, P(named("va", 1))))]
    for s, r in one(ctx, cl, s, "get", (0,), tag=tag, boots=b, time=t)[:1]:
        if not deep:
            return
        s = s.clone()
        b3, b3v = number(s, "b3", bn)
        t3, t3v = number(s, "t3", bn)
        good = Msg(cl, r, vbs, boots=b3, time=t3)
        flip = lambda o: list(o[:-1]) + [T.xor(o[-1], C(8, 1))]
        other = [("another message", Msg(cl, r, vbs, msgid=flip(r.msgid), boots=[5], time=[6])),
                 ("another engine", Msg(cl, r, vbs, eng=flip(cl.eid), boots=[5], time=[6])),
                 ("another user", Msg(cl, r, vbs, user=flip(cl.user), boots=[5], time=[6])),
                 ("another request", Msg(cl, r, vbs, rid=flip(r.rid), boots=[5], time=[6]))]
        if cl.auth:
            other.append(("no authentication", Msg(cl, r, vbs, mac=[], flags=2 if cl.priv else 0, boots=[5], time=[6])))
        for nm, x in other:
            # Passed over, and nothing is learnt from it
            for s1 in deliver(ctx, cl, s, r, "get", [x, good], key + ".follow", f"{cfg}{tag}: reply after one to {nm}")[:1]:
                one(ctx, cl, s1, "get_many", (0,), tag=f"{tag} after a reply, and one to {nm} before", boots=b3v, time=t3v)
            for s1 in deliver(ctx, cl, s, r, "get", [x], key + ".other", f"{cfg}{tag}: reply to {nm} alone", "PyBlockingIOError")[:1]:
                one(ctx, cl, s1, "get_next" if False else "get", (0,), tag=f"{tag} after a reply to {nm}", boots=b, time=t)
                engine_is(ctx, cl, s1, cl.eid, key, f"{cfg}{tag}, after a reply to {nm}")
        # The latest of several
        for s1 in deliver(ctx, cl, s, r, "get", [good], key + ".follow", f"{cfg}{tag}: reply")[:1]:
            for s2, r2 in one(ctx, cl, s1, "get", (0,), tag=tag + " after a reply", boots=b3v, time=t3v)[:1]:
                s2 = s2.clone()
                b4, b4v = number(s2, "b4", 1)
                t4, t4v = number(s2, "t4", 2)
                m = Msg(cl, r2, vbs, boots=b4, time=t4)
                for s3 in deliver(ctx, cl, s2, r2, "get", [m], key + ".follow", f"{cfg}{tag}: second reply")[:1]:
                    engine_is(ctx, cl, s3, cl.eid, key, f"{cfg}{tag}, after two replies")
                    one(ctx, cl, s3, "get", (0,), tag=tag + " after two replies", boots=b4v, time=t4v)
                    # The agent starts again: the time is zero for a second
                    for s4, r4 in one(ctx, cl, s3, "get", (0,), tag=tag + " after two replies", boots=b4v, time=t4v)[:1]:
                        s4 = s4.clone()
                        b5, b5v = number(s4, "b5", 1)
                        t5, t5v = number(s4, "t5", 0)
                        for s5 in deliver(ctx, cl, s4, r4, "get", [Msg(cl, r4, vbs, boots=b5, time=t5)], key + ".follow", f"{cfg}{tag}: reply with the time of zero")[:1]:
                            one(ctx, cl, s5, "get", (0,), tag=tag + " after a reply with the time of zero", boots=b5v, time=t5v)
                    # A Report of another engine is not for this session
                    x = report(cl, r2, eng=flip(cl.eid), boots=[5], time=[6])
                    for s4 in deliver(ctx, cl, s2, r2, "get", [x, m], key + ".follow", f"{cfg}{tag}: reply after a Report of another engine")[:1]:
                        one(ctx, cl, s4, "get", (0,), tag=tag + " after a Report of another engine", boots=b4v, time=t4v)


for _cfg in [c for c in CONFIGS if c.startswith("v3")]:

    def _f(ctx, cfg=_cfg):
        for i, (at, pt) in enumerate(pairs(cfg)):
            discovery(ctx, cfg, at, pt, (5, 12, 17, 32, 9, 31, 24, 6, 11)[i % 9], (4, 1, 2, 4, 3, 4, 1, 4, 4)[i % 9], i == 0)
        # Zeros in no octets; engine ids of the longest, and of fewer octets than SNMP-FRAMEWORK-MIB has
        for elen, bn in ((32, 0), (3, 1), (1, 1)):
            discovery(ctx, cfg, "localized", "localized", elen, bn, False)

    _f.__doc__ = f"Engine discovery and time synchronization of a {_cfg} session."
    unit(f"engine-{_cfg}", "C13", *(["C09"] if "-" in _cfg else []), *(["C11", "C14"] if CONFIGS[_cfg][2] else []), limit=300)(_f)
