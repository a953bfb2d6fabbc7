"""How long a call waits: an exact clock, time measured in nanoseconds by linear forms."""
import framework
import itertools
from framework import unit
from e2e import *
from fractions import Fraction
import lin
import world
from lin import Num, F
import u_send
from u_send import Client, CONFIGS, named, done, check_sent
from u_again import four_octets
from u_recv import Msg, Wait, varbind, outcome

SLACK = 20_000_000  # a call is late beyond
EARLY = 1_000_000  # and gives up too soon before
LIN = ("lin",)
VARS = ("linvars",)
IDS = itertools.count()
AGAIN = ("BlockingIOError", "PyBlockingIOError", "TimeoutError", "PyTimeoutError")
UNITS = {"nanos": 1, "micros": 1000, "millis": 10**6, "secs": 10**9}


def dur(n):
    return Nat("dur", (F(n),))


def inst(n):
    return Nat("instant", (F(n),))


def cons(st):
    """What is known of the times, including what the program has found out of numbers made from them."""
    out = list(st.cells.get(LIN, ()))
    for n, t in st.cells.get(VARS, ()):
        lo, hi = st.urange(t)
        v = Num({n: Fraction(1)}, Fraction(0))
        out += [(v - lo, False), (F(hi) - v, False)]
    return out


def add(st, f, strict=False):
    st.cells[LIN] = st.cells.get(LIN, ()) + ((f - 1 if strict else f, False),)


def possible(st, f, strict=False):
    return lin.feasible(cons(st) + [(f - 1 if strict else f, False)])


def split(st, f, strict=False):
    """The states where f >= 0 (f > 0), and those where it is not."""
    f = F(f)
    out = []
    for s, g, b in ((True, f, strict), (False, -f, not strict)):
        if possible(st, g, b):
            out.append((g, b, s))
    r = []
    for g, b, s in out:
        s2 = st.clone() if len(out) > 1 else st
        if len(out) > 1:
            add(s2, g, b)
        r.append((s2, s))
    return r


def num(st, t):
    """Linear form of a number of the program. What is not linear is left unknown, and nothing is concluded from it."""
    if t.__class__ is Num:
        return t
    if not isinstance(t, Term):
        raise Missing(f"time of {t}")
    if t.op == "c":
        return F(t.a)
    if t.op == "v":
        return var(st, t)
    u = T.zext_src(t)
    if u is not None:
        return num(st, u)
    c, d = T.lin(t)
    if len(d) > 1 or t not in d:
        sg = lambda k: k - (1 << t.w) if k >> (t.w - 1) else k
        r = F(sg(c))
        for x, k in d.items():
            r = r + num(st, x) * sg(k)
        return r
    if t.op == "op" and t.a[0] in ("udiv", "urem") and t.a[2].op == "c" and t.a[2].a:
        q, r = quo(st, num(st, t.a[1]), t.a[2].a)
        return q if t.a[0] == "udiv" else r
    if t.op == "bits":
        # Low part of a number which fits
        x = t.a[0]
        if x.__class__ is tuple and x[1] == 0 and not x[2] and x[0].w > t.w and st.urange(x[0])[1] >> t.w == 0:
            return num(st, x[0])
    st.cells[("loose",)] = 1
    return var(st, t)


def var(st, t):
    n = f"t{t.id}"
    if ("linvar", n) not in st.cells:
        st.cells[("linvar", n)] = t
        st.cells[VARS] = st.cells.get(VARS, ()) + ((n, t),)
    return Num({n: Fraction(1)}, Fraction(0))


def quo(st, x, d):
    if d == 1:
        return x, F(0)
    q = Num({f"q{next(IDS)}": Fraction(1)}, Fraction(0))
    add(st, q)
    add(st, x - q * d)
    add(st, q * d + (d - 1) - x)
    return q, x - q * d


class Clock:
    """The clock of one session."""

    def new(self, st, name, lo=0, hi=None):
        v = Num({f"{name}{next(IDS)}": Fraction(1)}, Fraction(0))
        add(st, v - lo)
        if hi is not None:
            add(st, F(hi) - v)
        return v

    def now(self, st):
        return st.cells.get(("clock",), F(10**12))

    def set(self, st, v):
        st.cells[("clock",)] = v

    # ------------------------------------------------------------ std::time
    def matches(self, c):
        if "std::time::" in c.rname or "std::thread::sleep" in c.rname:
            return True
        m = c.rname.rsplit("::", 1)[-1]
        if m in ("lt", "le", "gt", "ge", "eq", "ne", "cmp", "partial_cmp", "min", "max", "clamp", "add", "sub", "mul", "div", "add_assign", "sub_assign", "clone", "default"):
            return True
        return False

    def value(self, I, st, v):
        for _ in range(4):
            if v.__class__ is Ref:
                v = I.get(st, v.cell, v.path)
        return v

    def known(self, I, st, v):
        """Duration as the compiler writes it: seconds and nanoseconds."""
        if v.__class__ is Nat and v.kind in ("dur", "instant") and v.a and v.a[0].__class__ is Num:
            return v
        if v.__class__ is Agg and v.ty.k == "adt" and v.ty.d["name"].endswith("time::Duration"):
            s, n = v.f[0], v.f[1]
            while n.__class__ is Agg:
                n = n.f[0]
            if isinstance(s, Term) and isinstance(n, Term) and s.op == "c" and n.op == "c":
                return dur(s.a * 10**9 + n.a)
        return None

    def call(self, I, st, c):
        m = c.rname.rsplit("::", 1)[-1]
        a = [self.value(I, st, v) for v in c.args]
        tv = [self.known(I, st, v) for v in a]
        M = I.models
        if m == "now" and "Instant" in c.rname:
            return inst(self.now(st))
        if "thread::sleep" in c.rname:
            self.set(st, self.now(st) + tv[0].a[0])
            return UNIT
        if m.startswith("from_") and m[5:] in UNITS and "Duration" in c.rname:
            return dur(num(st, a[0]) * UNITS[m[5:]])
        if m == "new" and "Duration" in c.rname:
            return dur(num(st, a[0]) * 10**9 + num(st, a[1]))
        if not tv or tv[0] is None:
            return NotImplemented
        x = tv[0].a[0]
        kind = tv[0].kind
        mk = dur if kind == "dur" else inst
        y = tv[1].a[0] if len(tv) > 1 and tv[1] is not None else None
        if m == "clone":
            return mk(x)
        if m == "elapsed":
            return self.floor0(st, self.now(st) - x, dur)
        if m in ("duration_since", "saturating_duration_since") and y is not None:
            return self.floor0(st, x - y, dur)
        if m == "checked_duration_since" and y is not None:
            return [(s, M.some(I, c.dty, dur(x - y)) if t else M.none(I, c.dty)) for s, t in split(st, x - y)]
        if m == "is_zero":
            return [(s, M.boolc(not t)) for s, t in split(st, x, True)]
        if m in ("lt", "le", "gt", "ge") and y is not None:
            f = {"lt": y - x, "le": y - x, "gt": x - y, "ge": x - y}[m]
            return [(s, M.boolc(t)) for s, t in split(st, f, m in ("lt", "gt"))]
        if m in ("eq", "ne") and y is not None:
            out = []
            for s, t in split(st, x - y):
                if not t:
                    out.append((s, M.boolc(m == "ne")))
                    continue
                for s2, t2 in split(s, y - x):
                    out.append((s2, M.boolc(t2 == (m == "eq"))))
            return out
        if m in ("cmp", "partial_cmp") and y is not None:
            t = c.dty
            opt = t.d["name"].endswith("::Option")
            ot = M.res_ty(I, t, "Some") if opt else t
            out = []
            for s, lt in split(st, y - x, True):
                ways = [(s, "Less")] if lt else [(s2, "Greater" if gt else "Equal") for s2, gt in split(s, x - y, True)]
                for s2, n in ways:
                    v = Agg(ot, I.vidx(ot, n), ())
                    out.append((s2, M.some(I, t, v) if opt else v))
            return out
        if m in ("min", "max") and y is not None:
            return [(s, mk(x if t == (m == "max") else y)) for s, t in split(st, x - y)]
        if m == "clamp" and y is not None:
            z = tv[2].a[0]
            out = []
            for s, lo in split(st, y - x, True):
                out += [(s, mk(y))] if lo else [(s2, mk(z if hi else x)) for s2, hi in split(s, x - z, True)]
            return out
        if m in ("add", "checked_add", "saturating_add") and y is not None:
            r = mk(x + y)
            return M.some(I, c.dty, r) if m == "checked_add" else r
        if m in ("sub", "checked_sub", "saturating_sub") and y is not None:
            if kind == "instant" and tv[1].kind == "dur":
                return M.some(I, c.dty, inst(x - y)) if m == "checked_sub" else inst(x - y)
            if m == "checked_sub":
                return [(s, M.some(I, c.dty, dur(x - y)) if t else M.none(I, c.dty)) for s, t in split(st, x - y)]
            return self.floor0(st, x - y, dur)
        if m in ("add_assign", "sub_assign") and y is not None:
            r = c.args[0]
            v = x + y if m == "add_assign" else x - y
            if m == "sub_assign" and kind == "dur":
                out = []
                for s, t in split(st, v):
                    if not t:
                        I.panic(s, c) if hasattr(I, "panic") else None
                        continue
                    I.set(s, r.cell, r.path, mk(v))
                    out.append((s, UNIT))
                return out
            I.set(st, r.cell, r.path, mk(v))
            return UNIT
        if m in ("mul", "saturating_mul", "checked_mul") and a[1].__class__ is Term and a[1].op == "c":
            return mk(x * a[1].a) if m != "checked_mul" else M.some(I, c.dty, mk(x * a[1].a))
        if m in ("div", "checked_div") and a[1].__class__ is Term and a[1].op == "c" and a[1].a:
            q = quo(st, x, a[1].a)[0]
            return mk(q) if m == "div" else M.some(I, c.dty, mk(q))
        if m.startswith("as_") and m[3:] in UNITS:
            return self.number(I, st, c, quo(st, x, UNITS[m[3:]])[0])
        if m.startswith("subsec_"):
            q, r = quo(st, x, 10**9)
            return self.number(I, st, c, quo(st, r, UNITS[m[7:]])[0])
        return NotImplemented

    def number(self, I, st, c, x):
        """Back to a number of the program."""
        w = I.tw(c.dty)
        if not x.c:
            return C(w, int(x.k))
        t = V(w, ("linnum", next(IDS)), 0, 1 << 62)
        v = var(st, t)
        add(st, v - x)
        add(st, x - v)
        return t

    def floor0(self, st, x, mk):
        return [(s, mk(x if t else F(0))) for s, t in split(st, x)]


def wait_override(self, sess):
    """recv of the socket of the session: datagrams come one after another, any time later, until the wait is over."""

    def recv(I, st, c):
        armed, nonblock = None, False
        for e in st.events():
            if e[0] == "sock" and e[1] == "set_read_timeout":
                armed = self.option(I, e[2][0])
            elif e[0] == "sock" and e[1] == "set_nonblocking":
                nonblock = e[2][0].__class__ is Term and e[2][0].op == "c" and bool(e[2][0].a)
        now = self.now(st)
        k = st.cells.get(("recvno",), 0)
        out = []
        more = k < len(sess.queue)
        if nonblock:
            st.event("waits", F(0), now)
            return sess._recv(I, st, c)
        # Durations below a microsecond mean no timeout
        ways = [(st, False)] if armed is None else split(st, armed - 1000)
        for s, fin in ways:
            if armed is None or not fin:
                s.event("waits", None, now)
            else:
                s.event("waits", armed, now)
            if more:
                s2 = s.clone()
                w = self.new(s2, "arrival")
                if fin:
                    add(s2, armed - w)
                self.set(s2, now + w)
                s2.event("arrives", k)
                r = sess._recv(I, s2, c)
                out += r if isinstance(r, list) else [(s2, r)]
            if fin:
                s3 = s
                self.set(s3, now + armed)
                s3.event("again")
                e = Nat("ioerr", ("again", k))
                for n in ("WouldBlock", "ConnectionRefused"):
                    s3.assume(V(1, ("iokind", e, n)), n == "WouldBlock")
                out.append((s3, I.models.err(I, c.dty, e)))
        return out

    return recv


def _option(self, I, v):
    if v.__class__ is Agg and v.ty.k == "adt" and v.ty.d["name"].endswith("::Option"):
        if I.vidx(v.ty, "None") == v.v:
            return None
        v = v.f[0]
        d = self.known(I, None, v)
        if d is not None:
            return d.a[0]
    raise Missing(f"read timeout {v}")


Clock.option = _option


class Timed(Client):
    def __init__(self, ctx, cfg, **kw):
        self.clock = k = Clock()
        super().__init__(ctx, cfg, timeout=True, over=[(k.matches, k.call), (lambda c: c.rname.endswith("Socket::recv"), lambda I, st, c: k.recv(I, st, c))], **kw)
        k.recv = wait_override(k, self.s)


def other(cl, r):
    """A well-formed reply to another request."""
    f = lambda o: list(o[:-1]) + [T.xor(o[-1], C(8, 1))]
    return dict(msgid=f(r.msgid)) if cl.ver == "v3" else dict(rid=f(r.rid))


def timing(ctx, w, j, key):
    cl, r, k = w.cl, w.r, w.cl.clock
    st = w.st.clone()
    # Any time after the request
    k.set(st, k.now(st) + k.new(st, "idle"))
    vbs = [varbind(cl.oids[("o", 0)], tlv(2, P(named("va", 1))))]
    q = [Msg(cl, r, vbs, **other(cl, r)) for _ in range(j)] + [Msg(cl, r, vbs)]
    return timing_of(ctx, w, st, q, key)


def timing_of(ctx, w, st, q, key):
    cl, k = w.cl, w.cl.clock
    if isinstance(q, int):
        q = [lambda s: w.reply(s, True)] * q + [lambda s: w.reply(s, False)]
    start = k.now(st)
    limit = num(st, V(64, ("timeout_ns",), 1, 1 << 62))
    what = f"{cl.cfg} {w.op} after {len(q) - 1} stray replies"
    n = 0
    for s, v in w.recv(q, st):
        if not lin.feasible(cons(s)):
            continue
        n += 1
        got = s.cells[("recvno",)]
        o = outcome(v)
        for e in s.events():
            if e[0] == "waits" and e[1] is None:
                refuse(ctx, s, "C18", key + ".unlimited", f"{what}: recv waits with no limit of time", w.where)
                break
        else:
            ctx.ok("C18", key + ".unlimited", what, w.where)
        took = k.now(s) - start
        bad = took - limit - SLACK
        if possible(s, bad, True):
            refuse(ctx, s, "C18", key + ".late", f"{what}: the call lasts longer than the timeout: {scenario(s, took, limit, bad)}", w.where)
        else:
            ctx.ok("C18", key + ".late", what, w.where)
        if o == "ok" or got == len(q) and s.events()[-1][0] != "again" and o not in AGAIN:
            # What is made of the matching reply is up to the other units
            if got != len(q):
                refuse(ctx, s, "C18 C04", key + ".stray", f"{what}: datagram {got} is delivered", w.where)
            continue
        if o not in AGAIN:
            refuse(ctx, s, "C18", key + ".outcome", f"{what}: the call ends with {o}", w.where)
            continue
        early = limit - EARLY - took
        if possible(s, early, True):
            refuse(ctx, s, "C18", key + ".early", f"{what}: the call gives up before the timeout is over, {len(q) - got} of the datagrams to come: {scenario(s, took, limit, early)}", w.where)
        else:
            ctx.ok("C18", key + ".early", what, w.where)
    return n


def sync_timing(ctx, cl, op, j, key):
    """The same for the methods which send the request themselves."""
    k = cl.clock
    st = cl.st.clone()
    k.set(st, k.now(st) + k.new(st, "idle"))
    w = Answered(ctx, cl, op)
    s0 = [(st, None)]
    if op in ("get_next", "get_bulk"):
        s0 = cl.s.getiter(st, cl.oids[("o", 0)], c64(20) if op == "get_bulk" else None)
        w.iter = s0[0][1]
    n = 0
    for s, _ in s0:
        n += timing_of(ctx, w, s, j, key)
    return n


class Answered:
    """Stray and matching replies to whatever request has been sent."""

    def __init__(self, ctx, cl, op):
        self.cl, self.op, self.iter = cl, op, None
        self.quiet = framework.Ctx(ctx.db, ctx.repo, ctx.tier, ctx.props)
        self.where = f"{cl.s.cls}::{op}"

    def reply(self, st, stray):
        cl = self.cl
        d = sent(st)
        oids = [cl.oids[("o", 0)]] if self.op != "refresh" else []
        r = check_sent(self.quiet, cl, st, d[-1], self.op, oids, c64(20) if self.op == "get_bulk" else None)
        if r is None:
            raise Missing("the request is not as due")
        vbs = [varbind(cl.oids[("o", 0)], tlv(2, P(named("va", 1))))]
        return Msg(cl, r, vbs, **(other(cl, r) if stray else {}))

    def recv(self, q, st):
        cl = self.cl
        cl.s.queue = q
        args = [self.iter] if self.iter is not None else [cl.obj(0)] if self.op == "get" else [VecV(mkseq([B(cl.obj(0))]))] if self.op == "get_many" else []
        return cl.s.call(st, self.op, args)


def refuse(ctx, st, props, key, what, where):
    if ("loose",) in st.cells:
        return ctx.undecided(props, key, what + " (times are not linear)", where)
    return world.refuse(ctx, st, props, key, what, where)


def scenario(s, took, limit, f):
    """Values of the unknown times."""
    p = lin.point(cons(s) + [(f - 1, False)]) or {}
    ev = lambda x: float(sum((a * p.get(n, 0) for n, a in x.c.items()), Fraction(0)) + x.k)
    return f"timeout {ev(limit) / 1e9:.6f} s, the call takes {ev(took) / 1e9:.6f} s"


def run_time(ctx, cfg, op):
    cl = Timed(ctx, cfg, oids=(4,))
    four_octets(cl.I)
    w = Wait(ctx, cfg, op, cl=cl)
    n = 0
    for j in range(5):
        n += timing(ctx, w, j, f"time.{cl.ver}.{op}")
    ctx.ok("C18", f"time.{cl.ver}.{op}.explored", f"{n} paths", w.where)
    n = 0
    for j in range(3):
        n += sync_timing(ctx, cl, op, j, f"time.{cl.ver}.{op}.sync")
    ctx.ok("C18", f"time.{cl.ver}.{op}.sync.explored", f"{n} paths", f"{cl.s.cls}::{op}")
    done(ctx, cl, f"time.{cfg}.{op}", "C18")


for _cfg, _op in (("v1", "get"), ("v2c", "get"), ("v2c", "get_many"), ("v2c", "get_next"), ("v2c", "get_bulk"), ("v3", "get"), ("v3", "refresh"), ("v3-sha-aes", "get")):

    def _f(ctx, cfg=_cfg, op=_op):
        run_time(ctx, cfg, op)

    _f.__doc__ = f"How long {_op} of a blocking {_cfg} session waits."
    unit(f"time-{_cfg}-{_op}", "C18")(_f)


@unit("time-async", "C18")
def _async(ctx):
    """Sessions without a timeout never wait in recv."""
    for cfg in ("v1", "v2c", "v3"):
        cl = Client(ctx, cfg, oids=(4,))
        modes = [e for e in cl.st.events() if e[0] == "sock" and e[1] in ("set_nonblocking", "set_read_timeout")]
        where = f"{cl.s.cls}::new"
        last = [e for e in modes if e[1] == "set_nonblocking"]
        key = f"time.{cl.ver}.async"
        if not last or not (isinstance(last[-1][2][0], Term) and last[-1][2][0].op == "c" and last[-1][2][0].a):
            refuse(ctx, cl.st, "C18", key + ".mode", f"{cfg}: the socket of an asynchronous session blocks", where)
        else:
            ctx.ok("C18", key + ".mode", "set_nonblocking(true)", where)
        for op in ("get", "get_many", "get_next", "get_bulk", "refresh"):
            if cfg == "v1" and op == "get_bulk":
                continue
            try:
                w = Wait(ctx, cfg, op, cl=cl)
            except Missing:
                continue
            for s, v in w.recv([]):
                o = outcome(v)
                if "BlockingIOError" not in o:
                    refuse(ctx, s, "C18", key + ".nothing", f"{cfg} recv_{op}: with nothing to receive the call ends with {o}", w.where)
                else:
                    ctx.ok("C18", key + ".nothing", o, w.where)
            for e in w.st.events():
                if e[0] == "sock" and e[1] == "set_nonblocking" and e is not last[-1] and not e[2][0].a:
                    refuse(ctx, w.st, "C18", key + ".mode", f"{cfg}: the socket is made blocking", w.where)
        done(ctx, cl, f"time.{cl.ver}.async", "C18")
