"""Elements of a reply which claim more than what encloses them has, and octets behind the message."""
from framework import unit
from e2e import *
import u_send
from u_send import Client, CONFIGS, named, mac_of, ALG, done
from u_recv import Msg, Wait, varbind, ended, outcome, pyint_of
import u_recv


def places(o, base=0, up=None, out=None, path=()):
    """(path, offset of the length octet, octets from the contents to the end of what encloses it)"""
    out = [] if out is None else out
    end = base + len(o)
    for i, n in enumerate(tree(o, base)):
        p = path + (i,)
        out.append((p, n, end))
        if n.tag & 0x20:
            places(n.o, n.off + n.hl, n, out, p)
        elif n.tag == 4 and n.o and isinstance(n.o[0], Term) and n.o[0].op == "c" and n.o[0].a == 0x30:
            try:
                places(n.o, n.off + n.hl, n, out, p)
            except NotBer:
                pass
    return out


def grown(o, n, end, by):
    """The octets with the element's length running `by` octets past what encloses it; None when it takes another form."""
    k = end - n.off - n.hl + by
    if n.hl != 2 or k > 127:
        return None
    r = list(o)
    r[n.off + 1] = C(8, k)
    return r


def signed(cl, o, macs):
    """The octets with the right MAC in place of the one there."""
    if not cl.auth:
        return o
    i = next((j for j in range(len(o)) if o[j] is macs[0]), None)
    if i is None:
        return o
    z = o[:i] + [C(8, 0)] * 12 + o[i + 12 :]
    return o[:i] + mac_of(ALG[cl.auth], cl.akey, z) + o[i + 12 :]


def behind(o, n, extra):
    """Octets put behind the element, all that encloses it made longer."""
    def build(o, base=0):
        out = []
        for x in tree(o, base):
            inner = x.o
            if x.off <= n.off and n.end <= x.end and x is not n and (x.off, x.end) != (n.off, n.end):
                inner = build(x.o, x.off + x.hl)
            out += octets(mkseq(tlv(x.tag, P(inner))))
            if (x.off, x.end, x.tag) == (n.off, n.end, n.tag):
                out += extra
        return out

    return build(o)


def run_extent(ctx, cfg):
    cl = None
    for op in ("get", "get_many", "get_next"):
        w = Wait(ctx, cfg, op, cl=cl)
        cl = w.cl
        run_op(ctx, cfg, w)
    done(ctx, cl, f"extent.{cfg}", "C01")


def run_op(ctx, cfg, w):
    cl, r = w.cl, w.r
    where = w.where
    va, vb = named("va", 1), named("vb", 1)
    if w.op == "get":
        vbs = lambda x: [varbind(cl.oids[("o", 0)], tlv(2, x))]
    else:
        # Below anything
        vbs = lambda x: [varbind([0x2B, 6, 1, 4, 1], tlv(2, x)), varbind([0x2B, 6, 1, 4, 2], tlv(4, x, 3, 4)), varbind([0x2B, 6, 1, 4, 3], tlv(6, 0x2B, 6))]
    good = Msg(cl, r, vbs(vb))
    macs = named("xmac", 12)
    whole = octets(mkseq(Msg(cl, r, vbs(va), **({"mac": macs} if cl.auth else {})).p))
    # Behind the message
    for k in (1, 2, 3, 40):
        for nm, junk in (("", named("trail", k)), ("zero ", [C(8, 0)] * k)):
            o = signed(cl, whole + junk, macs)
            o2 = signed(cl, whole, macs) + junk
            for x in [o] + ([o2] if cl.auth else []):
                over(ctx, w, cfg, x, f"{k} {nm}octets are behind it", good, "trailing")
    # Elements past what encloses them
    n_el = 0
    for path, n, end in places(whole):
        for by in (1, 2, 5):
            o = grown(whole, n, end, by)
            if o is None or n.off + n.hl + (end - n.off - n.hl) + by > len(whole) + (5 if len(path) == 1 else 0):
                continue
            n_el += 1
            if len(path) == 1:
                continue
            over(ctx, w, cfg, signed(cl, o, macs), f"element {'.'.join(map(str, path))} (tag {n.tag:#x}) runs {by} octets past the end of what encloses it", good)
    if cl.priv:
        # The same within the scoped PDU, encrypted
        sc = octets(mkseq(Msg(cl, r, vbs(va)).scoped))
        for path, n, end in places(sc):
            for by in (1, 2):
                o = grown(sc, n, end, by)
                if o is None or len(path) == 1:
                    continue
                n_el += 1
                over(ctx, w, cfg, Msg(cl, r, vbs(va), scoped=P(o)), f"element {'.'.join(map(str, path))} (tag {n.tag:#x}) of the scoped PDU runs {by} octets past the end of what encloses it", good)
    ctx.ok("C16", f"extent.{cl.ver}.elements", f"{n_el} elements", where)


def over(ctx, w, cfg, msg, what, good, key="over"):
    m = msg if isinstance(msg, Msg) else P(msg)
    for st, v in w.recv([m, good]):
        if st.cells[("recvno",)] == 1 and outcome(v) == "ok":
            refuse(ctx, st, "C16", f"extent.{w.cl.ver}.{key}", f"{cfg} {w.op}: a reply is delivered though {what}", w.where)
        else:
            ctx.ok("C16", f"extent.{w.cl.ver}.{key}", what, w.where)


for _cfg in ("v1", "v2c", "v3", "v3-md5", "v3-sha-aes", "v3-md5-des"):

    def _f(ctx, cfg=_cfg):
        run_extent(ctx, cfg)

    _f.__doc__ = f"Replies to a {_cfg} session with elements longer than what encloses them."
    unit(f"extent-{_cfg}", "C16", "C01")(_f)
