"""Keys: RFC 3414 A.2 from the password to the key a session works with."""
import framework
from framework import unit
from e2e import *
import u_send
from u_again import four_octets
from u_recv import Msg, Wait, varbind, outcome
from u_send import Client, CONFIGS, KS, ALG, named, done, check_sent, one

MB = 1 << 20
KT = {"password": 0, "master": 0x40, "localized": 0x80}
W_M, W_L = "gufo_snmp::util::get_master_key", "gufo_snmp::util::get_localized_key"


def expansion(st, region, n, form=0):
    """One megabyte of the repeated password; None when the path does not tell how many times."""
    if n.op == "c":
        a = n.a
        return [S(region, ZERO, n, None)] * (MB // a) + [S(region, ZERO, c64(MB % a), None)]
    lo, hi = st.urange(n)
    if lo == 0 or MB // lo != MB // max(hi, 1):
        return None
    k = MB // lo
    rest = T.urem(c64(MB), n) if form else T.sub(c64(MB), T.mulc(n, k))
    tail = [] if st.decide(T.eq(rest, ZERO)) is True else [S(region, ZERO, rest, None)]
    return [S(region, ZERO, n, None)] * k + tail


def rope_same(st, a, b):
    """The ropes are equal piece by piece."""
    if len(a) != len(b):
        return False
    for p, q in zip(a, b):
        if p == q:
            continue
        if p.__class__ is not q.__class__ or p.__class__ is Z:
            return False
        if p.__class__ is B:
            if not (isinstance(p.v, Term) and isinstance(q.v, Term) and st.same(p.v, q.v)):
                return False
        elif p.region != q.region or not st.same(p.off, q.off) or not st.same(p.len, q.len):
            return False
    return True


def digest_in(x):
    """What the octet is a digest of."""
    if isinstance(x, Term) and x.op == "v" and isinstance(x.a, tuple) and x.a[0] == "byte" and x.a[1][0] == "digest":
        return x.a[1][1], x.a[1][2], x.a[2]
    return None


def hashed(alg, pieces, size):
    r = ("digest", alg, mkseq(pieces).p)
    return [byte(r, i) for i in range(size)]


def master_of(auth, pieces):
    return hashed(ALG[auth], pieces, KS[auth])


def local_of(auth, key, eid):
    """`key`, `eid`: octets or pieces."""
    return hashed(ALG[auth], P(key) + P(eid) + P(key), KS[auth])


def flat(v):
    if v.__class__ is Nat and v.kind == "pybytes" and v.a and v.a[0].__class__ is Seq:
        return octets(v.a[0])
    return None


class Alone:
    """One function of the module."""

    def __init__(self, ctx, fn, steps=4_000_000, conc=5000, K=12):
        self.ctx = ctx
        self.I = I = Interp(ctx.db, K=K)
        I.max_steps, I.max_conc, I.max_outs = steps, conc, 4000
        self.fn = find(ctx.db, fn)
        self.cls = fn
        self.s = self
        self.ver = "v3"

    def run(self, args, st=None):
        fn = self.fn
        ex, full = list(args), []
        for i in range(fn.argc):
            t = fn.locals[i + 1]
            full.append(Nat("gil", ()) if t.k == "adt" and t.d["name"].endswith("::Python") else ex.pop(0))
        outs = self.I.run(st or State(), fn, full)
        self.ctx.n_paths += len(outs)
        self.ctx.fns.update(f.name for f in self.I.visited.values() if f.local)
        return outs


def same_key(ctx, st, got, want, key, what, where):
    if got is None:
        ctx.undecided("C12", key, what, where)
        return
    if len(got) != len(want) or any(not isinstance(x, Term) for x in got):
        refuse(ctx, st, "C12", key, f"{what}: {len(got)} octets where {len(want)} are due", where)
        return
    d, e = [digest_in(x) for x in got], [digest_in(x) for x in want]
    if None not in d and None not in e and all(x[0] == y[0] and x[2] is y[2] for x, y in zip(d, e)) and all(x[1] is d[0][1] for x in d) and rope_same(st, d[0][1], e[0][1]):
        ctx.ok("C12", key, what, where)
        return
    for g, w in zip(got, want):
        if g is not w and compare(ctx, st, g, w, "C12", key, what, where) is not True:
            return
    ctx.ok("C12", key, what, where)


def masters(ctx, lengths, key="master", conc=5000, K=14):
    for auth in (1, 2):
        for L in lengths:
            A = Alone(ctx, W_M, steps=400_000_000 if conc > 5000 else 6_000_000, conc=conc, K=K)
            n = c64(L) if isinstance(L, int) else V(64, ("pwlen",), *L)
            st = State()
            what = f"{ALG[auth]}: password of {L if isinstance(L, int) else f'{L[0]} to {L[1]}'} octets"
            for s, v in A.run([C(8, auth), literal(A.I, st, [S(("pw",), ZERO, n, None)], "pw")], st):
                if not is_ok(v):
                    refuse(ctx, s, "C12", key + ".refused", f"{what} is refused: {str(v)[:100]}", W_M)
                    continue
                w = expansion(s, ("pw",), n)
                if w is None:
                    ctx.undecided("C12", key + ".value", what + ": the path does not tell the count", W_M)
                    continue
                got = flat(v.f[0])
                if n.op != "c" and got and digest_in(got[0]) and not rope_same(s, digest_in(got[0])[1], mkseq(w).p):
                    w = expansion(s, ("pw",), n, 1)
                same_key(ctx, s, got, master_of(auth, w), key + ".value", what, W_M)
            done(ctx, A, key, "C12")


@unit("key-master", "C12")
def _m(ctx):
    """Password to master key: lengths up to and over one megabyte."""
    ks = range(1, 12)
    ranges = [(MB // (k + 1) + 1, MB // k) for k in ks] + [(MB + 1, 1 << 40)]
    masters(ctx, ranges + [MB, MB - 1, MB + 1, 1 << 19, (1 << 19) + 1, (1 << 19) - 1, 4096, 1000, 1023])
    # What is refused
    A = Alone(ctx, W_M)
    alg = V(8, ("alg",))
    a6 = T.and_(alg, C(8, 0x3F))
    st = State()
    for s, v in A.run([alg, literal(A.I, st, [], "pw")], st):
        if is_ok(v):
            holds(ctx, s, T.eq(a6, C(8, 0)), "C12", "master.empty", "an empty password makes no key of an algorithm: this one is accepted", W_M)
        else:
            ctx.ok("C12", "master.empty", "refused", W_M)
    st = State()
    for s, v in A.run([alg, literal(A.I, st, [S(("pw",), ZERO, c64(1 << 19), None)], "pw")], st):
        if is_ok(v):
            holds(ctx, s, T.ult(a6, C(8, 3)), "C12", "master.alg", "only algorithms 0, 1 and 2 are known: this one is accepted", W_M)
    done(ctx, A, "master.refuse", "C12")


def _short(L):
    def f(ctx):
        masters(ctx, [L], "master.short", conc=3_000_000, K=14)

    f.__doc__ = f"Password of {L} octets to master key, the whole loop."
    return f


for _L in (64, 37):
    unit(f"key-master-{_L}", "C12")(_short(_L))
for _L in (8, 11, 1, 3):
    unit(f"key-master-{_L}", "C12", tier="thorough", limit=850)(_short(_L))


@unit("key-localized", "C12")
def _l(ctx):
    """Master key to localized key."""
    A = Alone(ctx, W_L)
    for auth in (1, 2):
        st = State()
        n, m = V(64, ("keylen",), 0, 1 << 30), V(64, ("eidlen",), 0, 1 << 30)
        key = lambda k: [S(("mk",), ZERO, k, None)]
        what = f"{ALG[auth]}: localized key"
        ok = 0
        for s, v in A.run([C(8, auth), literal(A.I, st, key(n), "mk"), literal(A.I, st, [S(("eid",), ZERO, m, None)], "eid")], st):
            c = T.eq(n, c64(KS[auth]))
            if not is_ok(v):
                fails(ctx, s, [c], "C12", "local.refused", f"{what}: a key of the right size is refused: {str(v)[:80]}", W_L)
                continue
            ok += 1
            if not holds(ctx, s, c, "C12", "local.size", f"{what}: the size of the accepted key is {KS[auth]}", W_L):
                continue
            if not s.assume(c, True):
                continue
            want = hashed(ALG[auth], key(c64(KS[auth])) + [S(("eid",), ZERO, m, None)] + key(c64(KS[auth])), KS[auth])
            same_key(ctx, s, flat(v.f[0]), want, "local.value", what, W_L)
        # Exact sizes
        for e in (0, 1, 5, 12, 17, 32, 33, 64, 100):
            for k in (KS[auth],):
                st = State()
                mk, eid = named("mk", k), named("eid", e)
                for s, v in A.run([C(8, auth), literal(A.I, st, mk, "mk"), literal(A.I, st, eid, "eid")], st):
                    if not is_ok(v):
                        refuse(ctx, s, "C12", "local.refused", f"{what}: engine id of {e} octets is refused: {str(v)[:80]}", W_L)
                    else:
                        ok += 1
                        same_key(ctx, s, flat(v.f[0]), local_of(auth, mk, eid), "local.value", f"{what}, engine id of {e} octets", W_L)
        if not ok:
            (ctx.undecided if A.I.unsup else ctx.bad)("C12", "local.none", f"{what}: nothing is accepted", W_L)
        for k in list(range(0, 24)) + [32, 40, 63, 64]:
            if k == KS[auth]:
                continue
            st = State()
            for s, v in A.run([C(8, auth), literal(A.I, st, named("mk", k), "mk"), literal(A.I, st, named("eid", 5), "eid")], st):
                if is_ok(v):
                    refuse(ctx, s, "C12", "local.size", f"{what}: a master key of {k} octets is accepted", W_L)
                else:
                    ctx.ok("C12", "local.size", what, W_L)
    alg = V(8, ("alg",))
    st = State()
    for s, v in A.run([alg, literal(A.I, st, named("mk", 16), "mk"), literal(A.I, st, named("eid", 5), "eid")], st):
        if is_ok(v):
            holds(ctx, s, T.ult(T.and_(alg, C(8, 0x3F)), C(8, 3)), "C12", "local.alg", "only algorithms 0, 1 and 2 are known: this one is accepted", W_L)
    done(ctx, A, "local", "C12")


# ------------------------------------------------------------------- sessions
PW = (1 << 19) + 5


def given(auth, kt, name, n=PW):
    """What the user gives: pieces, and the key due."""
    if kt == "password":
        return [S((name,), ZERO, c64(n), None)]
    return named(name, KS[auth])


def due(auth, kt, name, eid, n=PW):
    """The localized key."""
    if kt == "localized":
        return named(name, KS[auth])
    if kt == "master":
        return local_of(auth, named(name, KS[auth]), eid)
    return local_of(auth, master_of(auth, expansion(None, (name,), c64(n))), eid)


class Keyed(Client):
    """Session which gets its keys in the given form."""

    def __init__(self, ctx, cfg, at="localized", pt="localized", elen=5, **kw):
        self.at, self.pt = at, pt
        super().__init__(ctx, cfg, elen=elen, **kw)
        self.setup(self.eid)

    def setup(self, eid, an="akey", pn="pkey"):
        if self.auth:
            self.akey = due(self.auth, self.at, an, eid)
            if self.priv:
                self.pkey = due(self.auth, self.pt, pn, eid)

    def keyargs(self, I, st, an="akey", pn="pkey"):
        lit = lambda nm, o: literal(I, st, o, nm)
        a, p = self.auth, self.priv
        return [C(8, a | KT[self.at] if a else 0), lit("akey", given(a, self.at, an) if a else []), C(8, p | KT[self.pt] if p else 0), lit("pkey", given(a, self.pt, pn) if p else [])]

    def _v3(self, I, st):
        return [VecV(mkseq(P(self.eid))), VecV(mkseq(P(self.user)))] + self.keyargs(I, st)

    def set_keys(self, st, user, an="akey2", pn="pkey2"):
        """Other credentials for the session."""
        args = [VecV(mkseq(P(user)))] + self.keyargs(self.I, st, an, pn)
        outs = self.s.call(st, "set_keys", args)
        return outs


def pairs(cfg):
    _, a, p = CONFIGS[cfg]
    return [(x, y) for x in (KT if a else ("localized",)) for y in (KT if p else ("localized",))]


def run_keys(ctx, cfg):
    for at, pt in pairs(cfg):
        for elen in (5, 12):
            tag = f" with {at} and {pt} keys"
            PC = "C12" + (" C11" if CONFIGS[cfg][2] else "")
            try:
                cl = Keyed(ctx, cfg, at, pt, elen=elen, oids=(4,))
            except Missing as e:
                if not hasattr(e, "interp") or e.interp.unsup:
                    ctx.undecided(PC, f"key.{cfg}.made", f"{cfg}{tag}: {e}", cfg)
                else:
                    ctx.bad(PC, f"key.{cfg}.made", f"{cfg}{tag}: no session is made", cfg)
                continue
            four_octets(cl.I)
            where = f"{cl.s.cls}::new"
            rs = one(Retagged(ctx), cl, cl.st, "get", (0,), tag=tag)
            for s, r in rs[:1]:
                # The reply made with the same keys is taken
                w = Late(ctx, cl, s, r)
                for s2, v in w.recv([Msg(cl, r, [varbind(cl.oids[("o", 0)], tlv(2, P(named("va", 1))))])]):
                    if outcome(v) != "ok":
                        refuse(ctx, s2, "C12 C13" + (" C11" if cl.priv else ""), f"key.{cfg}.reply", f"{cfg}{tag}: the reply signed and encrypted with the keys due is not taken: {outcome(v)}", where)
                    else:
                        ctx.ok("C12 C13", f"key.{cfg}.reply", tag, where)
            # Another user
            if elen == 5:
                user = named("user2", 4)
                for s, v in cl.set_keys(cl.st.clone(), user):
                    if not is_ok(v):
                        refuse(ctx, s, "C12", f"key.{cfg}.set", f"{cfg}{tag}: set_keys fails: {outcome(v)}", f"{cl.s.cls}::set_keys")
                        continue
                    a0, p0, u0 = cl.akey, cl.pkey, cl.user
                    cl.user = user
                    cl.setup(cl.eid, "akey2", "pkey2")
                    one(Retagged(ctx), cl, s, "get", (0,), tag=tag + " after set_keys")
                    cl.akey, cl.pkey, cl.user = a0, p0, u0
            done(ctx, cl, f"key.{cfg}", "C12")


class Late:
    def __init__(self, ctx, cl, st, r, op="get"):
        self.cl, self.st, self.op, self.iter = cl, st, op, None
        self.where = f"{cl.s.cls}::recv_{op}"

    def recv(self, queue, st=None):
        return Wait.recv(self, queue, st)


class Retagged:
    """What goes wrong with the message made with the keys belongs to the keys as well."""

    MORE = {"wire.v3.mac": "C12", "wire.v3.cipher-key": "C12", "wire.v3.iv": "C12"}

    def __init__(self, ctx):
        self.__dict__["ctx"] = ctx

    def __getattr__(self, n):
        return getattr(self.ctx, n)

    def _p(self, props, key):
        m = [v for k, v in self.MORE.items() if key.startswith(k)]
        return (props if isinstance(props, str) else " ".join(props)) + (" " + m[0] if m else "")

    def ob(self, props, key, *a, **k):
        return self.ctx.ob(self._p(props, key), key, *a, **k)

    def ok(self, props, key, *a, **k):
        return self.ctx.ok(self._p(props, key), key, *a, **k)

    def bad(self, props, key, *a, **k):
        return self.ctx.bad(self._p(props, key), key, *a, **k)

    def undecided(self, props, key, *a, **k):
        return self.ctx.undecided(self._p(props, key), key, *a, **k)


for _cfg in [c for c in CONFIGS if "-" in c]:

    def _f(ctx, cfg=_cfg):
        run_keys(ctx, cfg)

    _f.__doc__ = f"The keys a {_cfg} session works with, from passwords, master keys and localized keys."
    unit(f"keys-{_cfg}", "C12", "C13", "C09", "C10", *(["C11"] if CONFIGS[_cfg][2] else []))(_f)


@unit("key-refused", "C12")
def _r(ctx):
    """Key material of the wrong size and unknown codes are refused."""
    for cfg in ("v3-md5", "v3-sha", "v3-md5-des", "v3-sha-aes", "v3-md5-aes", "v3-sha-des"):
        for which in ("auth", "priv"):
            if which == "priv" and not CONFIGS[cfg][2]:
                continue
            refused(ctx, cfg, which)


def refused(ctx, cfg, which):
    _, auth, priv = CONFIGS[cfg]
    ks = KS[auth]
    code = auth if which == "auth" else priv
    low = V(6, ("alg",))
    for t in (0, 0x40, 0x80, 0xC0):
        alg = T.mkbits(T.bits(low) + (t >> 6 & 1, t >> 7))
        sizes = [0, PW] if t == 0 else [0, 1, 8, 15, 16, 17, 19, 20, 21, 32, 40, 63, 64]

        def args(I, st, n):
            lit = lambda nm, o: literal(I, st, o, nm)
            k = [S(("odd",), ZERO, c64(n), None)] if n else []
            a = [alg, lit("akey", k)] if which == "auth" else [C(8, auth | 0x80), lit("akey", named("akey", ks))]
            p = [alg, lit("pkey", k)] if which == "priv" else [C(8, 0), lit("pkey", [])]
            return a + p

        base = Client(ctx, cfg, oids=(4,))
        for n in sizes:

            class Odd(Client):
                def _v3(self, I, st):
                    return [VecV(mkseq(P(self.eid))), VecV(mkseq(P(self.user)))] + args(I, st, n)

            where = f"{base.s.cls}::new"
            odd = Odd.__new__(Odd)
            try:
                odd.__init__(ctx, cfg, oids=(4,))
            except Missing:
                pass
            made = odd.s.states
            done(ctx, odd, f"refuse.{which}.new", "C12")
            judge(ctx, made, low, t, n, which, auth, where, f"{cfg}: a session", odd.I)
            st = base.st.clone()
            outs = base.s.call(st, "set_keys", [VecV(mkseq(P(base.user)))] + args(base.I, st, n))
            judge(ctx, [s for s, v in outs if is_ok(v)], low, t, n, which, auth, f"{base.s.cls}::set_keys", f"{cfg}: set_keys", base.I)
        done(ctx, base, f"refuse.{which}", "C12")


def judge(ctx, states, low, t, n, which, auth, where, what, I):
    """The states are those where the key of n octets, kind t and algorithm `low` is taken."""
    for s in states:
        holds(ctx, s, T.ult(low, C(6, 3)), "C12", f"refuse.{which}.alg", f"{what} takes only the {which} algorithms known: this one", where)
    for a in (1, 2):
        z = KS[auth] if which == "priv" else KS[a]
        good = n > 0 if t == 0 else n == z if t != 0xC0 else False
        txt = f"{what}, {which} algorithm {a}, key type {t:#x}, key of {n} octets"
        if not good:
            for s in states:
                fails(ctx, s, [T.eq(low, C(6, a))], "C12", f"refuse.{which}.size", txt + ": accepted", where)
            if not states:
                ctx.ok("C12", f"refuse.{which}.size", txt, where)
        elif not any(s.clone().assume(T.eq(low, C(6, a)), True) for s in states):
            (ctx.undecided if I.unsup else ctx.bad)("C12", f"refuse.{which}.good", txt + ": refused", where)
        else:
            ctx.ok("C12", f"refuse.{which}.good", txt, where)
