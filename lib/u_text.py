"""Text of OIDs: refused, or sent as the very OID it denotes."""
import re

from framework import unit
from e2e import *
import interp
import u_send
from u_send import Client, CONFIGS, named, one, done
from u_recv import outcome

EDGES = [0, 1, 9, 10, 39, 40, 63, 64, 79, 80, 99, 100, 127, 128, 129, 255, 256, 999, 16383, 16384, 16385, 65535, 65536, 2097151, 2097152, 2097153, (1 << 24) - 1, 1 << 24,
         (1 << 28) - 1, 1 << 28, (1 << 28) + 1, (1 << 29) - 1, 1 << 29, (1 << 30) - 1, 1 << 30, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 2, (1 << 32) - 1]
OVER = [1 << 32, (1 << 32) + 1, (1 << 32) + 127, (1 << 35) - 1, 1 << 35, (1 << 63), (1 << 64) - 1, 1 << 64, (1 << 64) + 3, 10**19, 10**30]

BAD = ["", ".", "..", "1", "1.", ".1", "1..", ".1.3", "1.3.", "1..3", "1.3..6", "1.3.6.", "..1.3", "1.3.-1", "1.3.+1", "+1.3.6", "-1.3.6", "1.+3.6", " 1.3.6", "1.3.6 ", "1.3 .6", "1. 3.6",
       "1.3.6\n", "\t1.3.6", "1.3.6\0", "\x001.3", "1,3,6", "1.3,6", "1.3.a", "a.b", "iso.3.6", "1.3.0x10", "1.3.1e3", "1.3.1_000", "1.3.\u0661", "\u0661.3.6", "1.3.6\u00a0", "\uff11.3", "1.3.\u00b2",
       "3.1", "3.1.1", "4.0.1", "10.3.6", "255.1", "256.1.3", "1.3.6.1.2.1.\u00e9", "1/3/6", "1:3", "0x1.3", "1.0x3", "1.3.6.1.2.1.1.1.0.", "1.3.6.1.2.1.1.1..0", "1.3.4294967296", "1.3.6.99999999999999999999"]
ODD = ["01.3.6", "1.03.6", "1.3.06", "001.003.006", "1.3.0000000000000000000007", "0.0", "0.39", "1.0", "1.39", "2.0", "2.39", "1.3", "0.40", "1.40", "1.41.6", "2.40.1", "2.47", "2.48.1", "2.100.3", "2.175.1", "2.176", "2.215", "2.216.1",
       "2.255", "2.256.7", "2.999.3", "2.4294967215", "2.4294967295", "1.256.1", "0.255.1", "0.256", "1.999", "1.4294967295.3"]


def canonical(arcs):
    if len(arcs) < 2 or arcs[0] > 2 or (arcs[0] < 2 and arcs[1] > 39):
        return None
    out = []
    for n in [arcs[0] * 40 + arcs[1]] + arcs[2:]:
        g = [n & 0x7F]
        n >>= 7
        while n:
            g.append(n & 0x7F | 0x80)
            n >>= 7
        out += reversed(g)
    return out


def denoted(t):
    """Octets the text stands for, None when it is no OID."""
    if not re.fullmatch(r"[0-9]+(\.[0-9]+)+", t) or not t.isascii():
        return None
    return canonical([int(x) for x in t.split(".")])


def must(t):
    """The text has to be accepted."""
    if not re.fullmatch(r"(0|[1-9][0-9]*)(\.(0|[1-9][0-9]*))+", t) or not t.isascii():
        return False
    a = [int(x) for x in t.split(".")]
    return a[0] < 3 and a[1] < 40 and all(x < 1 << 32 for x in a)


def texts():
    for t in BAD + ODD:
        yield t
    for e in EDGES + OVER:
        yield f"1.3.{e}"
    for e in EDGES[::2]:
        yield f"2.39.{e}.0.{EDGES[(e * 7 + 3) % len(EDGES)]}"
    for e in OVER:
        yield f"1.3.6.{e}.1"
        yield f"{e}.3.6"
        yield f"1.{e}.6"
    for a in (0, 1, 2):
        for b in (0, 1, 5, 38, 39, 40, 47, 48):
            yield f"{a}.{b}"
            yield f"{a}.{b}.0"
    yield "1.3." + ".".join(["1"] * 126)
    yield "1.3." + ".".join(["4294967295"] * 40)
    yield "1.3." + ".".join(["128"] * 63)


class Text(Client):
    """Session where the OIDs are given as text."""

    def __init__(self, ctx, cfg, **kw):
        self.texts = {}
        super().__init__(ctx, cfg, **kw)
        self.I.overrides = [o for o in self.I.overrides if o[1] != self._oid]
        self.I.overrides.insert(0, (lambda c: any(n.startswith(("pyo3::pybacked::PyBackedStr", "<pyo3::pybacked::PyBackedStr as ")) for n in (c.rname, c.name)), self._text))

    def _text(self, I, st, c):
        try:
            v = I.models.load(I, st, c.args[0])
        except Exception:
            return NotImplemented
        if v.__class__ is Nat and v.kind == "obj" and v.a[1] in self.texts:
            return I.models.new_slice(I, st, mkseq(P(self.texts[v.a[1]])))
        return NotImplemented

    def ask(self, st, op, texts):
        """Paths of a request for these texts."""
        I = self.I
        for i, t in enumerate(texts):
            self.texts[("o", i)] = list(t.encode()) if isinstance(t, str) else t
        if op == "get":
            return self.s.call(st, "send_get", [self.obj(0)])
        if op == "get_many":
            return self.s.call(st, "send_get_many", [VecV(mkseq([B(self.obj(i)) for i in range(len(texts))]))])
        fn = find(self.s.ctx.db, "gufo_snmp::snmp::op::getiter::GetIter::new")
        args = []
        for i in range(fn.argc):
            t = fn.locals[i + 1]
            if t.k == "adt" and t.d["name"].endswith("::Option"):
                args.append(Agg(t, I.vidx(t, "None"), ()) if op == "get_next" else Agg(t, I.vidx(t, "Some"), (c64(10),)))
            else:
                args.append(literal(I, st, self.texts[("o", 0)], "oidtext"))
        out = []
        for s, v in self.s._run(st, fn, args):
            if not is_ok(v):
                out.append((s, v))
                continue
            s.cells[("in", "iter")] = v.f[0]
            out += self.s.call(s, "send_" + op, [Ref(("in", "iter"), ())])
        return out


def names(msg):
    """OIDs of the request."""
    top = tree(octets(msg))
    return [x[0].o for x in top[0][2][3][0:64]]


def judge(ctx, cl, st, op, ts, n0, v, what):
    where = f"{cl.s.cls}::send_{op}"
    want = [denoted(t) for t in ts]
    d = sent(st, n0)
    if is_ok(v) or d:
        if len(d) != 1:
            refuse(ctx, st, "C08 C03", "text.one", f"{what}: {len(d)} datagrams are sent", where)
            return
        try:
            got = names(d[0])
        except (NotBer, IndexError) as e:
            refuse(ctx, st, "C03 C08", "text.form", f"{what}: not a well-formed message ({e})", where)
            return
        if len(got) != len(want):
            refuse(ctx, st, "C03 C08", "text.count", f"{what}: {len(got)} OIDs are sent", where)
            return
        for t, g, w in zip(ts, got, want):
            if w is None:
                refuse(ctx, st, "C08", "text.sent", f"{what}: it is no OID but is sent as {[x.a if isinstance(x, Term) and x.op == 'c' else '?' for x in g][:20]}", where)
            else:
                same_octets(ctx, st, g, P(w), "C08 C03", "text.octets", what, where)
        return
    o = outcome(v)
    if all(must(t) for t in ts):
        refuse(ctx, st, "C08", "text.accept", f"{what}: it is refused ({o})", where)
    else:
        ctx.ok("C08", "text.refused", what, where)


def show_text(t):
    return repr(t if len(t) < 40 else t[:37] + "...")


@unit("text-known", "C08", "C03", "C01")
def u_known(ctx):
    """Texts at the edges: sent as the octets due, or refused."""
    cl = Text(ctx, "v2c")
    u_send_ids(cl)
    for t in texts():
        n0 = len(list(cl.st.events()))
        for st, v in cl.ask(cl.st, "get", [t]):
            judge(ctx, cl, st, "get", [t], n0, v, f"OID given as {show_text(t)}")
    done(ctx, cl, "text.known", "C08")


@unit("text-calls", "C08", "C03", "C01", "C17")
def u_calls(ctx):
    """Every call: an OID which is none is refused wherever it is, and nothing is sent."""
    for cfg in ("v1", "v2c", "v3", "v3-sha-aes"):
        cl = Text(ctx, cfg)
        u_send_ids(cl)
        g = "1.3.6.1.2.1.4294967295"
        lists = [["1.3.x", g], [g, ""], [g, "1.3.4294967296", "2.5"], [g, "1.3.6.268435456"], ["0.0", "2.39.16384", "1.3.128"], [g, "1.3.-1"], ["1.3.6", "1.3..6"], [g, "3.1"]]
        if cfg.startswith("v3"):
            # The PDU is out of sight when encrypted
            lists = [x for x in lists if "-" not in cfg or any(denoted(t) is None for t in x)]
        for ts in lists:
            n0 = len(list(cl.st.events()))
            for st, v in cl.ask(cl.st, "get_many", ts):
                if cfg.startswith("v3"):
                    judge3(ctx, cl, st, "get_many", ts, n0, v, f"{cfg} get_many of {ts}")
                else:
                    judge(ctx, cl, st, "get_many", ts, n0, v, f"{cfg} get_many of {ts}")
        for op in ("get", "get_next", "get_bulk"):
            if cfg == "v1" and op == "get_bulk":
                continue
            for t in ["1.3.6.268435456", "2.39.4294967295", "1.3.6.+1", "1.3.6 ", "1.3.4294967296", "1.3..1", "", "1"]:
                if cfg == "v3-sha-aes" and denoted(t) is not None:
                    continue
                n0 = len(list(cl.st.events()))
                for st, v in cl.ask(cl.st, op, [t]):
                    (judge3 if cfg.startswith("v3") else judge)(ctx, cl, st, op, [t], n0, v, f"{cfg} {op} of {t!r}")
        done(ctx, cl, f"text.{cfg}", "C08")


def judge3(ctx, cl, st, op, ts, n0, v, what):
    where = f"{cl.s.cls}::send_{op}"
    want = [denoted(t) for t in ts]
    d = sent(st, n0)
    if None in want:
        if is_ok(v) or d:
            refuse(ctx, st, "C08", "text.sent", f"{what}: it is no OID but a request is sent", where)
        else:
            ctx.ok("C08", "text.refused", what, where)
        return
    if not d:
        if all(must(t) for t in ts):
            refuse(ctx, st, "C08", "text.accept", f"{what}: it is refused ({outcome(v)})", where)
        else:
            ctx.ok("C08", "text.refused", what, where)
        return
    try:
        pdu = tree(octets(d[0]))[0][3][2]
        got = [x[0].o for x in pdu[3][0:64]]
    except (NotBer, IndexError) as e:
        refuse(ctx, st, "C03 C08", "text.form", f"{what}: not a well-formed message ({e})", where)
        return
    for g, w in zip(got, want):
        same_octets(ctx, st, g, P(w), "C08 C03", "text.octets", what, where)


def u_send_ids(cl):
    from u_again import four_octets

    four_octets(cl.I)


def steps(st):
    n, out = st.path, []
    while n is not None:
        out.append(n[1])
        n = n[0]
    return out


def by_digits(t):
    return not isinstance(t, Term) or any("digits" in str(a.a) for a in T.atoms(t))


@unit("text-any", "C08", "C03", "C01")
def u_any(ctx):
    """Any number as an arc of 32 bits: the octets are the shortest base 128 form of it."""
    cl = Text(ctx, "v2c")
    u_send_ids(cl)
    dig = lambda i: S(("digits", i), ZERO, V(64, ("ndigits", i), 1, 10), None)
    num = lambda i: V(32, ("number", i))
    where = "gufo_snmp::ber::objectid::SnmpOid::try_from"

    def run(text, pat):
        """pat: for every sub-identifier after the first octet, a number or a term"""
        for k, x in enumerate(text):
            if x.__class__ is S:
                b = byte(x.region, 0)
                if not (cl.st.assume(T.ult(b, C(8, 48)), False) and cl.st.assume(T.ult(b, C(8, 58)), True)):
                    return
        n0 = len(list(cl.st.events()))
        cl.texts[("o", 0)] = text
        known = set(steps(cl.st))
        for st, v in cl.s.call(cl.st, "send_get", [cl.obj(0)]):
            d = sent(st, n0)
            # The digits are taken for a number, not read one by one
            if any(by_digits(t) for t in steps(st) if t not in known) or any(by_digits(o) for x in d for o in octets(x)):
                ctx.undecided("C08", "text.any.digits", "the digits are read one by one", where)
                continue
            yield st, v, d

    sizes = set()
    for pre, post, lead in ((b"1.3.", b"", [43]), (b"2.39.128.", b".16384.7", [119, 0x81, 0])):
        tail = [0x81, 0x80, 0, 7] if post else []
        text = P(pre) + [dig(len(pre))] + P(post)
        x = num(len(pre))
        for st, v, d in run(text, None):
            what = f"OID {pre.decode()}n{post.decode()}"
            if not d:
                refuse(ctx, st, "C08", "text.any.accept", f"{what}: it is refused ({outcome(v)}) for some n below 2^32", where)
                continue
            try:
                got = names(d[0])[0]
            except (NotBer, IndexError) as e:
                refuse(ctx, st, "C03 C08", "text.form", f"{what}: not a well-formed message ({e})", where)
                continue
            n = len(got) - len(lead) - len(tail)
            if n < 1 or n > 5:
                refuse(ctx, st, "C08", "text.any.size", f"{what}: {n} octets for n", where)
                continue
            sizes.add(n)
            # The least number of octets
            if n > 1:
                fails(ctx, st, [T.ult(x, C(32, 1 << 7 * (n - 1)))], "C08 C03", "text.any.min", f"{what}: n takes {n} octets where fewer do", where)
            if n < 5:
                holds(ctx, st, T.ult(x, C(32, 1 << 7 * n)), "C08 C03", "text.any.fit", f"{what}: {n} octets hold n", where)
            want = []
            bb = list(T.bits(x)) + [0] * 8
            for k in reversed(range(n)):
                want.append(T.mkbits(bb[7 * k : 7 * k + 7] + [1 if k else 0]))
            same_octets(ctx, st, got, P(lead) + [B(w) for w in want] + P(tail), "C08 C03", "text.any.octets", f"{what} in {n} octets", where)
    # The first two
    for text, f in (([dig(1)] + P(b".7.1"), 0), (P(b"1.") + [dig(2)] + P(b".1"), 1), (P(b"0.") + [dig(3)], 1), (P(b"2.") + [dig(4)] + P(b".5"), 1), ([dig(5)] + P(b".39"), 0)):
        x = [num(p.region[1]) for p in text if p.__class__ is S][0]
        lead = {1: (C(32, 7), [1]), 5: (C(32, 39), [])}
        name = "".join(chr(p.v.a) if p.__class__ is B else "n" for p in text)
        for st, v, d in run(text, None):
            what = f"OID {name}"
            bound = 3 if f == 0 else 40
            if not d:
                fails(ctx, st, [T.ult(x, C(32, bound))], "C08", "text.first.accept", f"{what}: it is refused ({outcome(v)}) for some n below {bound}", where)
                continue
            if name.startswith("2.") and f:
                lim = (1 << 32) - 81
            else:
                lim = bound - 1
            try:
                got = names(d[0])[0]
            except (NotBer, IndexError) as e:
                refuse(ctx, st, "C03 C08", "text.form", f"{what}: not a well-formed message ({e})", where)
                continue
            holds(ctx, st, T.ule(x, C(32, lim)), "C08", "text.first.bound", f"{what} is sent: n is at most {lim}", where)
            if f == 0:
                s1 = T.add(T.mul(x, C(32, 40)), C(32, int(name.split(".")[1])))
                rest = [int(y) for y in name.split(".")[2:]]
            else:
                s1 = T.add(x, C(32, 40 * int(name.split(".")[0])))
                rest = [int(y) for y in name.split(".")[2:]]
            n = len(got) - len(rest)
            if n == 1:
                same_octets(ctx, st, got, [B(T.trunc(s1, 8))] + P(rest), "C08 C03", "text.first.octets", what, where)
                holds(ctx, st, T.ult(s1, C(32, 128)), "C08 C03", "text.first.fit", f"{what}: one octet holds the first two arcs", where)
            elif n < 1 or n > 5 or not name.startswith("2."):
                refuse(ctx, st, "C08", "text.any.size", f"{what}: {n} octets for the first two arcs", where)
    if sizes != {1, 2, 3, 4, 5}:
        ctx.undecided("C08", "text.any.sizes", f"sub-identifiers of {sorted(sizes)} octets only were seen", where)
    else:
        ctx.ok("C08", "text.any.sizes", "sub-identifiers of 1 to 5 octets", where)
    done(ctx, cl, "text.any", "C08")
