"""Whole datagrams: any octets, no panic, every loop makes progress.

The decoders of BER elements are taken by their contracts (header-total, int-decode,
value-any and value-oid prove those for any octets), and the PDU decoder is taken by
its contract where a whole message is decoded (decode-pdu proves it)."""
from framework import unit
from world import *
import interp

STOP = 4096


def decoders(db, part):
    return [f for f in db.local_fns() if part in f.name and f.name.endswith("::try_from") and "TryFrom<&" in f.name and "[u8]" in f.name]


def decoder(db, *names):
    for n in names:
        l = decoders(db, n)
        if len(l) == 1:
            return l[0]
    raise Missing(f"decoder of {names[0]}")


def pdu_contract(I, st, c):
    """SnmpPdu::try_from(octets): refused or some PDU."""
    if c.args[0].__class__ is not Fat:
        return NotImplemented
    et = I.models.res_ty(I, c.dty, "Err")
    okt = I.models.res_ty(I, c.dty, "Ok")
    k = len(path_of(st))
    s1, s2 = st.clone(), st.clone()
    return [(s1, I.models.err(I, c.dty, Lazy(et, ("pduerr", k)))), (s2, I.models.ok(I, c.dty, Lazy(okt, ("pdu", k))))]


PDU = (lambda c: any(n.endswith("::try_from") and "snmp::pdu::SnmpPdu" in n.split(" as ")[0] for n in (c.rname, c.name)), pdu_contract)
ELEMENTS = [HEADER, INT, VALUE, RELATIVE]


def total(ctx, key, fn, over, what):
    r = Run(ctx, K=1, overrides=over)
    f = region(r.I, r.st, "i")
    try:
        r.go(fn, [f])
    except interp.Budget:
        r.outs = r.outs or []
        r.complete = False
    r.panics("C01", key, what)


@unit("decode-pdu", "C01")
def decode_pdu(ctx):
    total(ctx, "decode.pdu", decoder(ctx.db, "snmp::pdu::SnmpPdu"), ELEMENTS, "a PDU of any octets: ")


@unit("decode-scoped", "C01")
def decode_scoped(ctx):
    total(ctx, "decode.scoped", decoder(ctx.db, "snmp::msg::v3::scoped::ScopedPdu", "ScopedPdu"), [PDU] + ELEMENTS, "a decrypted scoped PDU of any octets: ")


def mk(ver):
    @unit(f"decode-{ver}", "C01")
    def u(ctx):
        fn = decoder(ctx.db, f"snmp::msg::{ver}::")  if ver != "v3" else decoder(ctx.db, "snmp::msg::v3::msg::", "SnmpV3Message")
        total(ctx, f"decode.{ver}", fn, [PDU] + ELEMENTS, f"a {ver} message of any octets: ")


for _v in ("v1", "v2c", "v3"):
    mk(_v)
