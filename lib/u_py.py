"""The Python clients: abstract interpretation of their sources against a modelled extension module, clock and agent."""
import functools
import os

import lin
from framework import unit
from pyworld import *

MAIN = "gufo.snmp"


class Case:
    """All the paths of one scenario."""

    def __init__(self, ctx, props, key, limit=600):
        self.ctx, self.props, self.key, self.limit = ctx, props, key, limit
        self.bad = None

    def root(self):
        return os.path.join(self.ctx.repo, "src")

    def run(self, scene, agent, body, judge):
        """`agent(w)` makes the agent; `body(w)` uses the session; `judge(w, r)` yields what is wrong, if anything."""
        path = lin.Path()
        n = 0
        und = None
        while True:
            w = World(self.root(), path)
            w.agent = agent(w) if agent else Agent()
            try:
                r = attempt(w, body)
                if r[0] == "unsupported":
                    und = und or str(r[1])
                elif r[0] != "infeasible":
                    lin.TEXT = True
                    for msg in judge(w, r) or ():
                        self.ctx.bad(self.props, self.key, f"{scene}: {msg}", where_of(w))
                        self.bad = msg
                        return False
            except Unsupported as e:
                und = und or str(e)
            except Infeasible:
                pass
            finally:
                lin.TEXT = False
                w.I.end()
                self.ctx.fns.update(w.I.funcs)
            n += 1
            self.ctx.n_paths += 1
            nx = path.following()
            if nx is None:
                break
            if n >= self.limit:
                self.ctx.undecided(self.props, self.key + ".reach", f"{scene}: more than {n} paths", MAIN)
                return False
            path = lin.Path(nx)
        if und is not None:
            self.ctx.undecided(self.props, self.key + ".reach", f"{scene}: {und}", MAIN)
            return False
        self.ctx.ok(self.props, self.key, f"{scene}", MAIN)
        return True


def where_of(w):
    return ", ".join(sorted(f for f in w.I.funcs if "client" in f or "policer" in f)[:6])


def attempt(w, body):
    try:
        return ("ok", body(w))
    except Hang:
        return ("hang", None)
    except Unsupported as e:
        return ("unsupported", str(e))
    except Budget:
        return ("unsupported", "too many steps")
    except Infeasible:
        return ("infeasible", None)
    except Control as e:
        return ("unsupported", type(e).__name__)
    except RecursionError:
        return ("unsupported", "recursion")
    except BaseException as e:  # noqa: BLE001
        return ("exc", e)


class Mode:
    def __init__(self, name):
        self.name = name
        self.sync = name == "sync"

    def session(self, w, **kw):
        c = w.get(f"gufo.snmp.{self.name}_client", "SnmpSession")
        kw.setdefault("addr", "192.0.2.1")
        return c(**kw)

    def user(self, w, auth=None, akt=None, priv=None, pkt=None, name="joe", akey=None, pkey=None):
        u = lambda n: w.get("gufo.snmp.user", n)
        KT = u("KeyType")
        kw = {}
        if auth:
            kw["auth_key"] = u(auth)(akey, **({"key_type": KT[akt]} if akt else {}))
        if priv:
            kw["priv_key"] = u(priv)(pkey, **({"key_type": KT[pkt]} if pkt else {}))
        return u("User")(name, **kw)

    def ver(self, w, v):
        return None if v is None else w.get("gufo.snmp.version", "SnmpVersion")[v]

    def enter(self, w, s):
        return type(s).__enter__(s) if self.sync else w.run(type(s).__aenter__(s))

    def leave(self, w, s):
        return type(s).__exit__(s, None, None, None) if self.sync else w.run(type(s).__aexit__(s, None, None, None))

    def call(self, w, s, op, *a, **kw):
        return w.run(getattr(s, op)(*a, **kw))

    def iter(self, w, it):
        return iter(it) if self.sync else it.__aiter__()

    def next(self, w, it):
        """(item,), None at the end."""
        try:
            return (next(it) if self.sync else w.run(type(it).__anext__(it)),)
        except (StopIteration if self.sync else StopAsyncIteration):
            return None

    def walk(self, w, it, limit=50):
        it = self.iter(w, it)
        out = []
        for _ in range(limit):
            x = self.next(w, it)
            if x is None:
                return out
            out.append(x[0])
        raise Unsupported("endless walk")


SYNC, ASYNC = Mode("sync"), Mode("async")
MODES = (SYNC, ASYNC)
T0 = 10.0


def sends(w):
    return [e for e in w.events if e[1] == "send"]


def raiser(f):
    def g(w):
        raise f(w)

    return g


def err(name):
    return lambda w: getattr(w.module("gufo.snmp._fast"), name)("x")


def excname(e):
    return type(e).__name__


def v3user(w, m, kind="auth"):
    if kind == "none":
        return m.user(w)
    return m.user(w, "Md5Key", "Localized", "Aes128Key" if kind == "priv" else None, "Localized", akey=b"a" * 16, pkey=b"p" * 16)


def mk(w, m, ver, **kw):
    """Session of the version with an engine id known."""
    if ver == "v3":
        kw.setdefault("user", v3user(w, m))
        kw.setdefault("engine_id", b"engine-1")
    return m.session(w, version=m.ver(w, ver), **kw)


# ------------------------------------------------------------ single requests
TEXTS = ["1.3.6.1.2.1.1.6.0", "1.3.6.1.2.1.1.4294967295", "2.39", "", ".1.3.6", "1.3.6 ", "01.3"]


@unit("py-get", "C03", "C08", "C04", src="py")
def u_get(ctx):
    """get and get_many: the very OIDs are asked for and the very result is given back."""
    for m in MODES:
        for ver in ("v1", "v2c", "v3"):
            for t in TEXTS:
                c = Case(ctx, "C03 C08", f"py.get.{m.name}")

                def body(w):
                    s = mk(w, m, ver)
                    return m.call(w, s, "get", t)

                def judge(w, r):
                    sn = sends(w)
                    if not sn and r[0] == "exc" and t not in TEXTS[:3]:
                        return
                    if len(sn) != 1:
                        yield f"{len(sn)} requests are sent"
                    elif sn[0][3] != "get" or sn[0][4] != (t,):
                        if same_oid(t, sn[0][4][0] if sn[0][4] else None) and sn[0][3] == "get":
                            return
                        yield f"{sn[0][3]}{sn[0][4]} is sent"
                    elif r[0] != "ok" or r[1] is not w.agent.val:
                        yield f"the result is {r[1]!r}"

                c.run(f"{m.name} {ver} get({t!r})", val_agent, body, judge)
            for oids in (["1.3.6.1", "1.3.5", "2.1.4", "1.3.5"], ("1.3.7",), "gen", "dict", []):
                c = Case(ctx, "C03", f"py.get_many.{m.name}")
                want = ["1.3.9", "1.3.8", "1.3.10"] if isinstance(oids, str) else list(oids)

                def body(w):
                    s = mk(w, m, ver)
                    o = iter(want) if oids == "gen" else dict.fromkeys(want) if oids == "dict" else oids
                    return m.call(w, s, "get_many", o)

                def judge(w, r):
                    sn = sends(w)
                    if not want and not sn:
                        return
                    if len(sn) != 1:
                        yield f"{len(sn)} requests are sent"
                    elif sn[0][3] != "get_many" or list(sn[0][4][0]) != want:
                        yield f"{sn[0][3]}{sn[0][4]} is sent"
                    elif r[0] != "ok" or r[1] is not w.agent.val:
                        yield f"the result is {r[1]!r}"

                c.run(f"{m.name} {ver} get_many({oids})", val_agent, body, judge)
            # Failures are not hidden
            for op, arg in (("get", "1.3.6"), ("get_many", ["1.3.6"])):
                for e in ("NoSuchInstance", "SnmpDecodeError", "SnmpAuthError", "SnmpError"):
                    c = Case(ctx, "C04 C07" if e == "NoSuchInstance" else "C04", f"py.{op}.{m.name}.error")

                    def body(w):
                        return m.call(w, mk(w, m, ver), op, arg)

                    def judge(w, r):
                        if r[0] != "exc" or excname(r[1]) != e:
                            yield f"{e} becomes {r[0]} {r[1]!r}"

                    c.run(f"{m.name} {ver} {op} ends with {e}", lambda w: Agent([raiser(err(e))]), body, judge)


def same_oid(a, b):
    from u_text import denoted

    return isinstance(b, str) and denoted(a) is not None and denoted(a) == denoted(b)


def val_agent(w):
    a = Agent()
    a.val = w.value("result")
    a.answers = [lambda w: a.val] * 9
    return a


# -------------------------------------------------------------------- sockets
@unit("py-session", "C03", "C13", "C18", src="py")
def u_session(ctx):
    """Construction: the socket of the version with the credentials given."""
    for m in MODES:
        for ver, kw, want in (
            (None, {}, "v2c"), ("v2c", {}, "v2c"), ("v1", {}, "v1"), ("v1", {"community": "secret"}, "v1"), (None, {"community": "c2"}, "v2c"), (None, {"user": "auth"}, "v3"), (None, {"user": "none"}, "v3"), ("v3", {"user": "priv"}, "v3"),
            ("v2c", {"community": "", "port": 1161}, "v2c"), ("v2c", {"user": "auth", "community": "x"}, "v2c"), ("v1", {"community": ""}, "v1"), ("v2c", {"community": " pub\u00e9lic "}, "v2c"), ("v1", {"user": "none"}, "v1"),
        ):  # fmt: skip
            for tmo in (10.0, 0.5, 3, 1.7, 0.0005, 86400.0):
                c = Case(ctx, "C03 C18" if want != "v3" else "C03 C13 C18", f"py.session.{m.name}")

                def body(w):
                    k = dict(kw)
                    if "user" in k:
                        k["user"] = v3user(w, m, k["user"])
                        w.user = k["user"]
                        if want == "v3":
                            k["engine_id"] = b"\x80engine"
                    m.session(w, version=m.ver(w, ver), timeout=tmo, **k)

                def judge(w, r):
                    if r[0] != "ok":
                        yield f"it fails with {r[1]!r}"
                        return
                    if len(w.socks) != 1 or w.socks[0].ver != want:
                        yield f"the socket is {[s.ver for s in w.socks]}"
                        return
                    a = w.socks[0].args
                    if a["addr"] != f"192.0.2.1:{kw.get('port', 161)}":
                        yield f"the address is {a['addr']}"
                    if want != "v3":
                        if a["community"] != kw.get("community", "public"):
                            yield f"the community is {a['community']}"
                    else:
                        if a["engine_id"] != b"\x80engine":
                            yield f"the engine id is {a['engine_id']}"
                        yield from user_args(a, w.user)
                    t = a["timeout_ns"]
                    if m.sync:
                        if not isinstance(t, int) or isinstance(t, bool) or not 0 < t <= tmo * NS + 1 or t < tmo * NS * 0.999:
                            yield f"a timeout of {tmo} s is {t!r} ns"
                    elif t != 0:
                        yield f"an asynchronous socket blocks for {t} ns"

                c.run(f"{m.name} session of {want} with {kw} timeout {tmo}", None, body, judge)
        # Requests which need what is missing
        c = Case(ctx, "C03 C13", f"py.session.{m.name}.user")

        def body(w):
            m.session(w, version=m.ver(w, "v3"))

        def judge(w, r):
            if r[0] == "ok":
                yield "a session of v3 without a user is made"

        c.run(f"{m.name} session of v3 without a user", None, body, judge)


ALGS = {"Md5Key": 1, "Sha1Key": 2, "DesKey": 1, "Aes128Key": 2, None: 0}
KTS = {None: 0, "Password": 0, "Master": 1, "Localized": 2}


def user_args(a, u):
    """The arguments are those of the user (for which other units vouch)."""
    want = {"user": u.name, "auth_alg": u.get_auth_alg(), "auth_key": u.get_auth_key(), "priv_alg": u.get_priv_alg(), "priv_key": u.get_priv_key()}
    for k, v in want.items():
        if a[k] != v or type(a[k]) is not type(v) and not isinstance(a[k], int):
            yield f"{k} is {a[k]!r} where {v!r} is due"


# ------------------------------------------------------------------- the user
def user_cases():
    for auth, n in (("Md5Key", 16), ("Sha1Key", 20), (None, 0)):
        for akt in (None, "Password", "Master", "Localized") if auth else (None,):
            for priv in (None, "DesKey", "Aes128Key") if auth else (None,):
                for pkt in (None, "Password", "Master", "Localized") if priv else (None,):
                    yield auth, n, akt, priv, pkt


@unit("py-user", "C12", "C13", "C03", src="py")
def u_user(ctx):
    """Users: codes of the algorithms and key types, keys as given."""
    for auth, n, akt, priv, pkt in user_cases():
        for pw in (b"maplesyrup", b"x", b"p" * 16, b"p" * 20, b"long password of more than twenty octets", b"\x00\xff", b"\xff\x00", b" space "):
            c = Case(ctx, "C12 C13", "py.user")
            ak = pw if akt in (None, "Password") else bytes(range(n)) if len(pw) % 2 else bytes(range(n - 1, -1, -1))
            pk = pw[::-1] if pkt in (None, "Password") else bytes(range(101, 100 + n)) + (b"\x00" if len(pw) % 2 else b" ")
            m = SYNC

            def body(w):
                u = m.user(w, auth, akt, priv, pkt, "bob", ak, pk)
                s = m.session(w, version=m.ver(w, "v3"), user=u, engine_id=b"abcde")
                return s

            def judge(w, r):
                if r[0] != "ok":
                    yield f"it fails with {r[1]!r}"
                    return
                a = w.socks[0].args
                want = {"user": "bob", "auth_alg": (ALGS[auth] | KTS[akt] << 6) if auth else 0, "auth_key": ak if auth else b"", "priv_alg": (ALGS[priv] | KTS[pkt] << 6) if priv else 0, "priv_key": pk if priv else b""}
                for k, v in want.items():
                    if a[k] != v:
                        yield f"{k} is {a[k]!r} where {v!r} is due"

            c.run(f"User with {auth} {akt} {priv} {pkt}, password {pw!r}", None, body, judge)
            if akt not in (None, "Password") and pkt not in (None, "Password") and len(pw) % 2 == 0:
                break
    # Keys as exposed
    for cls, alg in (("Md5Key", 1), ("Sha1Key", 2)):
        c = Case(ctx, "C12", "py.user.derive")

        def body(w):
            k = w.get("gufo.snmp.user", cls)
            p, q, e = w.value("password"), w.value("master key"), w.value("engine id")
            w.vals = p, q, e
            return k.get_master_key(p), k.get_localized_key(q, e)

        def judge(w, r):
            p, q, e = w.vals
            if r[0] != "ok":
                yield f"it fails with {r[1]!r}"
                return
            a, b = r[1]
            if not (isinstance(a, tuple) and len(a) == 3 and a[0] == "master" and a[1] == alg and a[2] is p):
                yield f"the master key is {a}"
            if not (isinstance(b, tuple) and len(b) == 4 and b[0] == "localized" and b[1] == alg and b[2] is q and b[3] is e):
                yield f"the localized key is {b}"

        c.run(f"{cls}.get_master_key, get_localized_key", None, body, judge)


# ---------------------------------------------------------------------- walks
def item(w, i, truth=None):
    return (f"1.3.6.1.{i}", w.value(f"value {i}", truth))


class Walk(Agent):
    """Answers of a walk: rows of item numbers; None ends a row, "stop" is the end of the walk, an exception name raises."""

    def __init__(self, w, rows, op, sym=True):
        self.all = {}
        super().__init__([self.row(r, op, sym) for r in rows])

    def row(self, r, op, sym):
        def f(w):
            if r == "stop":
                raise StopAsyncIteration("stop")
            if isinstance(r, str):
                raise err(r)(w)
            if op == "get_next":
                return self.one(w, r, sym)
            return [None if i is None else self.one(w, i, sym) for i in r]

        return f

    def more(self, w):
        raise StopAsyncIteration("stop")

    def one(self, w, i, sym):
        if i not in self.all:
            self.all[i] = item(w, i, None if sym else True)
        return self.all[i]


BULK = [
    ([[1], [2, 3], [4, None]], [1, 2, 3, 4], None), ([[1, 2, None]], [1, 2], None), ([[None]], [], None), (["stop"], [], None), ([[1, 2, 3], "stop"], [1, 2, 3], None), ([[1], [2], [3], [None]], [1, 2, 3], None),
    ([[1, 2], [3], [4, 5], "stop"], [1, 2, 3, 4, 5], None), ([[1], "stop"], [1], None), ([[1, 2, 3, 4, 5], [6, 7, 8, 9, 10], [11], "stop"], list(range(1, 12)), None),
    ([list(range(1, 21)), list(range(21, 41)), [41, None]], list(range(1, 42)), None), ([[1, 2], "SnmpDecodeError"], [1, 2], "SnmpDecodeError"), (["SnmpAuthError"], [], "SnmpAuthError"),
    ([[1], [], [2]], [1], None), ([[]], [], None), ([list(range(1, 301)), list(range(301, 431)), [431, None]], list(range(1, 432)), None), ([list(range(1, 66)), "stop"], list(range(1, 66)), None),
    ([list(range(i, i + 2)) for i in range(1, 81, 2)] + ["stop"], list(range(1, 81)), None),
]
NEXT = [([1, 2, 3, "stop"], [1, 2, 3], None), (["stop"], [], None), ([1, "stop"], [1], None), ([1, "SnmpDecodeError"], [1], "SnmpDecodeError"), (["SnmpAuthError"], [], "SnmpAuthError"),
        (list(range(1, 8)) + ["stop"], list(range(1, 8)), None), (list(range(1, 121)) + ["stop"], list(range(1, 121)), None)]


@unit("py-walk", "C05", "C06", "C03", src="py")
def u_walk(ctx):
    """Iterators: every item once, in order, asking again until the end."""
    base = "1.3.6.1.2"
    for m in MODES:
        for ver in ("v1", "v2c", "v3"):
            for op, scripts in (("getnext", NEXT), ("getbulk", BULK), ("fetch", None)):
                if ver == "v1" and op == "getbulk":
                    continue
                kind = "get_bulk" if op == "getbulk" or (op == "fetch" and ver != "v1") else "get_next"
                for rows, want, fail in scripts or (BULK if kind == "get_bulk" else NEXT):
                    for mr in (None, 2, 5) if kind == "get_bulk" and ver == "v2c" else (None,):
                        c = Case(ctx, "C05 C06", f"py.walk.{m.name}.{op}")
                        sym = len(want) < 4

                        def body(w, how=None):
                            kw = {"max_repetitions": mr} if mr and op == "fetch" else {}
                            s = mk(w, m, ver, **kw)
                            it = m.iter(w, s.getbulk(base, mr) if op == "getbulk" and mr else getattr(s, op)(base))
                            w.got = []
                            while len(w.got) <= len(want) + 2:
                                x = m.next(w, it)
                                if x is None:
                                    return True
                                w.got.append(x[0])
                            return False

                        def judge(w, r):
                            exp = [w.agent.all.get(i) for i in want]
                            if len(w.got) != len(want) or any(a is not b and a != b for a, b in zip(w.got, exp)):
                                yield f"answers {rows} give {w.got} then {r[0]} {r[1]!r}"
                                return
                            if fail is None and r != ("ok", True):
                                yield f"answers {rows} end with {r[0]} {r[1]!r}"
                            if fail is not None and (r[0] != "exc" or excname(r[1]) != fail):
                                yield f"answers {rows} end with {r[0]} {r[1]!r}, not {fail}"
                            sn = sends(w)
                            its = w.agent.iters
                            if len(sn) != len([x for x in rows[: len(sn)]]) or len(sn) > len(rows):
                                yield f"{len(sn)} requests for the answers {rows}"
                            if any(e[3] != kind for e in sn):
                                yield f"{[e[3] for e in sn]} are sent"
                            used = {id(e[4][0]) for e in sn}
                            if len(used) != 1:
                                yield f"the walk goes on with {len(used)} iterators"
                            elif any(i.oid != base for i in its if id(i) in used):
                                yield f"the walk starts at {its[0].oid}"
                            elif any(e[2] is not w.socks[0] for e in sn):
                                yield "another socket is used"
                            if kind == "get_bulk":
                                k = [i for i in its if id(i) in used][0].max_repetitions if used else None
                                if mr and k != mr:
                                    yield f"max_repetitions is {k} where {mr} is asked for"
                                elif not isinstance(k, int) or k < 1:
                                    yield f"max_repetitions is {k}"

                        c.run(f"{m.name} {ver} {op} mr={mr}", lambda w: Walk(w, rows, kind, sym), body, judge)


@unit("py-fetch", "C03", "C05", src="py")
def u_fetch(ctx):
    """fetch: GetBulk only when the version has it and it is allowed; max_repetitions as asked for."""
    for m in MODES:
        for ver, allow, smr, amr in ((v, a, s, x) for v in ("v1", "v2c", "v3") for a in (None, True, False) for s in (None, 1, 7, 100) for x in (None, 1, 13)):
            for op in ("fetch", "getbulk", "getnext"):
                if (op != "getbulk" and amr) or (op == "getbulk" and ver == "v1"):
                    continue
                c = Case(ctx, "C03 C05", f"py.fetch.{m.name}.{op}")

                def body(w):
                    kw = {}
                    if allow is not None:
                        kw["allow_bulk"] = allow
                    if smr is not None:
                        kw["max_repetitions"] = smr
                    s = mk(w, m, ver, **kw)
                    return m.walk(w, s.getbulk("1.3.6", amr) if amr else getattr(s, op)("1.3.6"))

                bulk = op == "getbulk" or (op == "fetch" and ver != "v1" and allow is not False)

                def judge(w, r):
                    sn = sends(w)
                    if r[0] != "ok" or len(sn) != 1:
                        yield f"{r[0]} {r[1]!r} after {len(sn)} requests"
                        return
                    if sn[0][3] != ("get_bulk" if bulk else "get_next"):
                        yield f"{sn[0][3]} is sent"
                    elif bulk:
                        k = sn[0][4][0].max_repetitions
                        w_ = amr or smr
                        if w_ and k != w_:
                            yield f"max_repetitions is {k} where {w_} is asked for"
                        elif not isinstance(k, int) or k < 1:
                            yield f"max_repetitions is {k}"

                c.run(f"{m.name} {ver} {op} allow_bulk={allow} max_repetitions={smr} {amr}", lambda w: Walk(w, ["stop"], "get_bulk"), body, judge)


@unit("py-walks", "C05", "C03", src="py")
def u_walks(ctx):
    """Walks side by side and one after the other, with other requests between."""
    for m in MODES:
        for a, b in (("getnext", "getnext"), ("getbulk", "getbulk"), ("getbulk", "getnext"), ("fetch", "getbulk")):
            c = Case(ctx, "C05", f"py.walks.{m.name}")

            class Two(Agent):
                """Five items below every base, two in a reply."""

                def __init__(self, w):
                    super().__init__()
                    self.pos = {}

                def reply(self, w, k):
                    op, a = self.last
                    if op == "get":
                        return w.value("x")
                    it = a[0]
                    p = self.pos.get(id(it), 0)
                    if p >= 5:
                        raise StopAsyncIteration
                    n = 1 if op == "get_next" else 2
                    r = [(f"{it.oid}.{i}", i) for i in range(p, min(5, p + n))]
                    self.pos[id(it)] = p + n
                    return r[0] if op == "get_next" else r

                def sending(self, w, s, op, a, block):
                    self.last = (op, a)
                    super().sending(w, s, op, a, block)

            def body(w):
                s = mk(w, m, "v2c")
                x, y = m.iter(w, getattr(s, a)("1.3.6")), m.iter(w, getattr(s, b)("1.3.7"))
                o1, o2 = [], []
                for k in range(12):
                    for it, o in ((x, o1), (y, o2)):
                        if o and o[-1] is None:
                            continue
                        v = m.next(w, it)
                        o.append(v and v[0])
                    if k % 2:
                        m.call(w, s, "get", "1.3.8")
                return o1, o2, m.walk(w, getattr(s, a)("1.3.6"))

            def judge(w, r):
                f = lambda base: [(f"{base}.{i}", i) for i in range(5)]
                if r[0] != "ok" or r[1] != (f("1.3.6") + [None], f("1.3.7") + [None], f("1.3.6")):
                    yield f"{r[0]} {r[1]!r}"

            c.run(f"{m.name} {a} along with {b}", Two, body, judge)


# ------------------------------------------------------------------- timeouts
REQ = {
    "get": lambda m, w, s: m.call(w, s, "get", "1.3.6"),
    "get_many": lambda m, w, s: m.call(w, s, "get_many", ["1.3.6", "1.3.7"]),
    "getnext": lambda m, w, s: m.next(w, m.iter(w, s.getnext("1.3.6"))),
    "getbulk": lambda m, w, s: m.next(w, m.iter(w, s.getbulk("1.3.6"))),
    "fetch": lambda m, w, s: m.next(w, m.iter(w, s.fetch("1.3.6"))),
    "refresh": lambda m, w, s: m.call(w, s, "refresh"),
}


def any_reply(w):
    op = w.agent.op
    if op == "get_next":
        return ("1.3.6.1", 1)
    if op == "get_bulk":
        return [("1.3.6.1", 1)]
    return {"1.3.6": 1} if op == "get_many" else 7 if op == "get" else None


@unit("py-timeout", "C18", src="py")
def u_timeout(ctx):
    """Every request ends within the timeout of the session, and a reply within it is delivered."""
    for m in MODES:
        for tmo in (T0, 0.5, 3, 1.25):
            ns = int(tmo * NS)
            f = lambda *xs: [int(ns * x) for x in xs]
            scenes = [
                ("a silent agent", dict(delays=[None] * 9), False), ("junk all the time", dict(delays=[None] * 9, junk=[f(*[0.3 * i for i in range(1, 30)])]), False),
                ("junk often", dict(delays=[None] * 9, junk=[f(*[0.05 * i for i in range(1, 120)])]), False), ("a late reply", dict(delays=f(1.2)), False), ("a late reply after junk", dict(delays=f(1.4), junk=[f(0.5, 0.9)]), False),
                ("a prompt reply", dict(delays=[0]), True), ("a reply at 90 %", dict(delays=f(0.9)), True), ("a reply at 90 % after junk", dict(delays=f(0.9), junk=[f(0.1, 0.4, 0.4, 0.8)]), True),
                ("a reply at 99 % after much junk", dict(delays=f(0.99), junk=[f(*[0.02 * i for i in range(1, 40)])]), True),
            ]  # fmt: skip
            if not m.sync:
                scenes += [("a full send buffer", dict(delays=f(0.2), full=f(0.1)), True), ("a full send buffer and a silent agent", dict(delays=[None], full=[1]), False)]
            for op, go in REQ.items():
                for what, kw, due in scenes:
                    c = Case(ctx, "C18", f"py.timeout.{m.name}.{op}")

                    def body(w):
                        s = mk(w, m, "v3" if op == "refresh" else "v2c", timeout=tmo)
                        w.t0 = w.now
                        return go(m, w, s)

                    def judge(w, r):
                        dt = w.now - w.t0
                        if r[0] == "hang":
                            yield f"with {what} it never ends"
                        elif dt > ns + 1000 + (1 if what.startswith("a full send buffer and") else 0):
                            yield f"with {what} it takes {dt / 1e9} s with a timeout of {tmo} s"
                        elif due and r[0] != "ok":
                            yield f"with {what} it ends with {r[1]!r} after {dt / 1e9} s of {tmo} s"
                        elif not due and (r[0] != "exc" or not isinstance(r[1], TimeoutError)):
                            yield f"with {what} it ends with {r[0]} {r[1]!r}"

                    c.run(f"{m.name} {op} timeout {tmo}: {what}", lambda w: Agent([any_reply] * 9, **kw), body, judge)
    # No patience at all
    for op, go in REQ.items():
        c = Case(ctx, "C18", f"py.timeout.async.{op}")

        def body(w):
            s = mk(w, ASYNC, "v3" if op == "refresh" else "v2c", timeout=0.0)
            w.t0 = w.now
            return go(ASYNC, w, s)

        def judge(w, r):
            if r[0] == "hang":
                yield "with a silent agent it never ends"

        c.run(f"async {op} timeout 0", lambda w: Agent([any_reply] * 9, delays=[None] * 9), body, judge)


# ------------------------------------------------------------------ discovery
class Engine(Agent):
    """Agent of v3: discovery, time synchronization, and the state of the socket they leave."""

    def __init__(self, w, fails=()):
        super().__init__()
        self.fails = list(fails)
        self.learned = None
        self.state = None
        self.synced = False
        self.bad = []

    def sending(self, w, s, op, a, block):
        self.last = op
        if self.learned is None:
            self.learned = bool(s.args["engine_id"])
            self.state = {k: s.args[k] for k in ("user", "auth_alg", "auth_key", "priv_alg", "priv_key")}
        if op != "refresh":
            w.log("state", dict(self.state), self.learned, self.synced)
        super().sending(w, s, op, a, block)
        if op == "refresh" and self.fails and self.fails.pop(0):
            self.queue = []

    def reply(self, w, k):
        if self.last == "refresh":
            self.learned = True
            self.synced = True
            return None
        return 1

    def keys(self, w, s, d):
        if not self.learned:
            self.bad.append("the keys are set before the engine id is known")
        self.state = dict(d)
        self.synced = False
        self.set = getattr(self, "set", 0) + 1


@unit("py-discovery", "C13", "C09", "C10", "C11", "C14", src="py")
def u_discovery(ctx):
    """Sessions of v3: engine discovery, then the keys of the user, then the time."""
    for m in MODES:
        for auth, n, akt, priv, pkt in user_cases():
            for eid in (None, b"", b"\x80known"):
                for how in ("with", "refresh", "twice", "fail", "again"):
                    c = Case(ctx, "C13", f"py.discovery.{m.name}")
                    ak, pk = bytes(range(1, n + 1)), bytes(range(101, 101 + n))

                    def body(w):
                        w.user = m.user(w, auth, akt, priv, pkt, "bob", ak, pk)
                        kw = {} if eid is None else {"engine_id": eid}
                        s = m.session(w, version=m.ver(w, "v3"), user=w.user, **kw)
                        if how == "with":
                            s = m.enter(w, s)
                        elif how == "refresh":
                            m.call(w, s, "refresh")
                        elif how == "twice":
                            m.enter(w, s)
                            m.call(w, s, "get", "1.3.5")
                            m.call(w, s, "refresh")
                        elif how in ("fail", "again"):
                            try:
                                m.enter(w, s) if how == "fail" else m.call(w, s, "refresh")
                            except TimeoutError:
                                pass
                            else:
                                if w.agent.k >= 0:
                                    return "lost"
                            m.call(w, s, "refresh")
                        m.call(w, s, "get", "1.3.6")
                        it = m.iter(w, s.getnext("1.3.7")) if False else None
                        return it

                    def judge(w, r):
                        yield from w.agent.bad
                        if r[0] != "ok":
                            yield f"it ends with {r[0]} {r[1]!r}"
                            return
                        if r[1] == "lost":
                            yield "a refresh without a reply passes for done"
                            return
                        st = [e for e in w.events if e[1] == "state"]
                        if not st:
                            yield "no request is sent"
                            return
                        _, _, state, learned, synced = st[-1]
                        yield from user_args(state, w.user)
                        if not learned:
                            yield "requests are sent though the engine id is not known"
                        if auth and not synced:
                            yield "authenticated requests are sent though the time of the engine is not known"
                        if eid and w.socks[0].args["engine_id"] != eid:
                            yield f"the engine id given is {eid}, that of the socket is {w.socks[0].args['engine_id']}"
                        if not eid and w.socks[0].args["engine_id"] != b"":
                            yield f"the session starts with the engine id {w.socks[0].args['engine_id']}"
                        if not eid:
                            # Nothing of the user is used before the engine is known
                            a = w.socks[0].args
                            if a["auth_key"] or a["priv_key"] or a["auth_alg"] or a["priv_alg"]:
                                yield "the discovery is not without authentication and privacy"
                        if len(w.socks) != 1:
                            yield f"{len(w.socks)} sockets are made"

                    def again(w, r):
                        n = getattr(w.agent, "set", 0)
                        if n > 1:
                            yield f"the keys are set {n} times, every time the salts start anew"

                    if priv and how in ("twice", "again"):
                        Case(ctx, "C14", f"py.discovery.{m.name}.salts").run(f"{m.name} v3 {auth} {akt} {priv} {pkt} engine_id={eid} {how}", lambda w: Engine(w, [1, 0, 0] if how == "again" else []), body, again)
                    fails = [1, 0, 0] if how in ("fail", "again") else []
                    c.run(f"{m.name} v3 {auth} {akt} {priv} {pkt} engine_id={eid} {how}", lambda w: Engine(w, fails), body, judge)


# --------------------------------------------------------------------- policer
RATES = (1, 2, 3, 7.5, 10, 1000, 0.5, 33.3)


@unit("py-policer", "C19", src="py")
def u_policer(ctx):
    """The policer over any sequence of arrivals."""
    for how in ("wait_sync", "wait"):
        for steps in ((6 if ctx.tier == "thorough" else 5),) if how == "wait_sync" else (4,):
            c = Case(ctx, "C19", f"py.policer.{how}", limit=2000)

            def body(w):
                p = w.path
                rps = p.new("rps", True)
                p.assume(rps, True)
                iv = p.new("interval", True)
                p.memo[("inv", rps.key())] = iv / NS
                p.assume(iv - 1)
                w.now = p.new("clock")
                p.assume(w.now)
                try:
                    pol = w.get("gufo.snmp.policer", "RPSPolicer")(rps)
                except ValueError:
                    raise Unsupported("refused")
                w.iv = iv
                w.log_ = []
                for k in range(steps):
                    gap = p.new(f"gap{k}")
                    p.assume(gap)
                    t = w.now = w.now + gap
                    w.run(getattr(pol, how)())
                    w.log_.append((t, w.now))
                return None

            def judge(w, r):
                p = w.path
                if r[0] != "ok":
                    yield f"it ends with {r[0]} {r[1]!r}"
                    return
                for k, (t, x) in enumerate(w.log_):
                    d = lin.F(x - t)
                    if p.possible(d - w.iv - 1):
                        yield f"request {k + 1} is delayed by {d} ns, more than the interval: {sample(p, [(d - w.iv - 1, False)])}"
                        return
                for i in range(len(w.log_)):
                    for j in range(i):
                        span = w.log_[i][1] - w.log_[j][1]
                        lim = w.iv * (i - j - 1)
                        if p.possible(lim - span):
                            yield f"{i - j + 1} releases within {lin.F(span)} ns, {i - j - 1} intervals: {sample(p, [(lim - span, False)])}"
                            return

            c.run(f"RPSPolicer.{how}, {steps} requests", None, body, judge)


def sample(p, more):
    r = lin.point(p.cons + [(f, s) for f, s in more])
    if r is None:
        return ""
    return ", ".join(f"{a.split('#')[0]}={float(x):g}" for a, x in sorted(r.items()) if a.split("#")[0] in ("interval",) or a.startswith("gap"))


@unit("py-policer-step", "C19", src="py")
def u_step(ctx):
    """The policer in any state it can be in: one more request keeps the invariant, which bounds the rate for ever."""
    c = Case(ctx, "C19", "py.policer.invariant")

    def make(w):
        p = w.path
        rps = p.new("rps", True)
        p.assume(rps, True)
        iv = p.new("interval", True)
        p.memo[("inv", rps.key())] = iv / NS
        p.assume(iv - 1)
        w.iv = iv
        w.now = p.new("clock")
        p.assume(w.now)
        pol = w.get("gufo.snmp.policer", "RPSPolicer")(rps)
        before = dict(pol.__dict__)
        pol.wait_sync()
        return pol, before

    found = []

    def body(w):
        pol, before = make(w)
        p = w.path
        num = [k for k, v in pol.__dict__.items() if lin.F(v) is not None]
        moving = [k for k in num if pol.__dict__[k] is not before.get(k)]
        fixed = [k for k in num if k not in moving]
        w.ok = None
        if len(moving) != 1 or not fixed:
            raise Unsupported(f"the state is {sorted(pol.__dict__)}")
        a = moving[0]
        cands = []
        for d in fixed:
            D = lin.F(pol.__dict__[d])
            x, last = lin.F(pol.__dict__[a]), w.now
            if not p.possible(w.iv - D, True) and not p.possible(x - last, True) and not p.possible(last - x - D):
                cands.append((d, D))
        if not cands:
            raise Unsupported("no invariant is found")
        d, D = cands[0]
        x = p.new("prev")
        last = p.new("last")
        p.assume(last - x)
        p.assume(x + D - last, True)
        p.assume(last)
        setattr(pol, a, x)
        gap = p.new("gap")
        p.assume(gap)
        w.now = t = last + gap
        pol.wait_sync()
        y = lin.F(pol.__dict__[a])
        return x, y, D, t, w.now, last

    def judge(w, r):
        p = w.path
        if r[0] != "ok":
            yield f"it ends with {r[0]} {r[1]!r}"
            return
        x, y, D, t, now, last = r[1]
        broken = [n for n, f in (("step", x + D - y), ("below", y - now)) if p.possible(f, True)]
        if p.possible(now - y - D):
            broken.append("width")
        if p.possible(now - t - w.iv - 1):
            broken.append("delay")
        if broken:
            # The states are those of the invariant, which may be more than those reached
            raise Unsupported(f"the invariant is not kept: {broken}")

    c.run("RPSPolicer, any number of requests", None, body, judge)


@unit("py-rates", "C19", src="py")
def u_rates(ctx):
    """Rates which are refused, and sessions with a rate."""
    inf, nan = float("inf"), float("nan")
    for v, bad in ((0, 1), (0.0, 1), (-0.0, 1), (-1, 1), (-0.001, 1), (-1e30, 1), (-inf, 1), (inf, 1), (nan, 1), (1.1e9, 1), (2e9, 1), (10_000_000_000, 1), (1e300, 1)):
        c = Case(ctx, "C19", "py.rates.refuse")

        def body(w):
            return w.get("gufo.snmp.policer", "RPSPolicer")(v)

        def judge(w, r):
            if bad and r[0] == "ok":
                yield f"a rate of {v} is taken"

        c.run(f"RPSPolicer({v})", None, body, judge)
        for m in MODES:
            if v == 0:
                # Falsy: no limit is asked for
                continue
            c = Case(ctx, "C19", f"py.rates.{m.name}.refuse")

            def body(w):
                return m.session(w, limit_rps=v)

            c.run(f"{m.name} session with limit_rps={v}", None, body, judge)


def use_all(m, w, s, v3):
    """Requests of every kind, back to back."""
    if v3:
        m.enter(w, s)
    m.call(w, s, "get", "1.3.6")
    m.call(w, s, "get_many", ["1.3.6", "1.3.7"])
    m.call(w, s, "get_many", ["1.3.6"])
    m.call(w, s, "get_many", [])
    m.walk(w, s.getnext("1.3.6"))
    m.walk(w, s.getbulk("1.3.6"))
    m.walk(w, s.getbulk("1.3.6", 2))
    m.walk(w, s.fetch("1.3.6"))
    if v3:
        m.call(w, s, "refresh")
    m.call(w, s, "get", "1.3.6")
    try:
        m.call(w, s, "get", "1.3.6")
    except TimeoutError:
        pass
    m.call(w, s, "get", "1.3.6")


class Mixed(Agent):
    """Answers whatever is asked, walks of three items in two replies; one request has no answer."""

    def __init__(self, w, silent=None, full=()):
        super().__init__(full=full)
        self.pos = {}
        self.silent = silent

    def sending(self, w, s, op, a, block):
        self.last = (op, a)
        super().sending(w, s, op, a, block)
        if self.silent is not None and self.k == self.silent:
            self.queue = []

    def reply(self, w, k):
        op, a = self.last
        if op == "get_next":
            n = self.pos[id(a[0])] = self.pos.get(id(a[0]), 0) + 1
            if n > 3:
                raise StopAsyncIteration
            return (f"1.3.6.{n}", n)
        if op == "get_bulk":
            n = self.pos[id(a[0])] = self.pos.get(id(a[0]), 0) + 1
            return [(f"1.3.6.{n}", n), (f"1.3.6.{n}.1", n)] if n == 1 else [(f"1.3.6.{n}", n), None]
        return {} if op == "get_many" else None if op == "refresh" else 1


@unit("py-limited", "C19", src="py")
def u_limited(ctx):
    """Every request of a limited session waits for its turn."""
    for m in MODES:
        for ver in ("v1", "v2c", "v3", "v3d"):
            for rps in RATES:
                for silent, full in ((None, ()), (7, ()), (None, (1, 0, 1, 0, 0, 1))):
                    if full and m.sync:
                        continue
                    c = Case(ctx, "C19", f"py.limited.{m.name}")

                    def body(w):
                        kw = {"timeout": 0.05}
                        if ver == "v3d":
                            kw.update(engine_id=b"", user=v3user(w, m))
                        s = mk(w, m, ver[:2] if ver != "v2c" else ver, limit_rps=rps, **kw)
                        if ver == "v1":
                            s0 = s.getbulk
                            m.call(w, s, "get", "1.3.6")
                            m.walk(w, s.getnext("1.3.6"))
                            m.walk(w, s.fetch("1.3.6"))
                            for n in (1, 2, 1, 0, 1):
                                m.call(w, s, "get_many", ["1.3.6", "1.3.7"][:n])
                            return s0 and None
                        use_all(m, w, s, ver.startswith("v3"))

                    def judge(w, r):
                        if r[0] != "ok":
                            if isinstance(r[1], TimeoutError) and silent is not None:
                                pass
                            else:
                                yield f"it ends with {r[0]} {r[1]!r}"
                                return
                        t = [e[0] for e in sends(w)]
                        iv = NS / rps
                        for i in range(len(t)):
                            for j in range(i):
                                if t[i] - t[j] + 2 <= (i - j - 1) * iv or (i - j > 1 and t[i] - t[j] < (i - j - 1) * iv * (1 - 1e-9)):
                                    yield f"{i - j + 1} requests ({', '.join(e[3] for e in sends(w)[j : i + 1])}) within {(t[i] - t[j]) / 1e9} s at {rps} a second"
                                    return

                    c.run(f"{m.name} {ver} limit_rps={rps} silent={silent} full={full}", lambda w: Mixed(w, silent, full), body, judge)
            # A policer of the caller
            c = Case(ctx, "C19", f"py.limited.{m.name}.policer")

            def body(w):
                pol = w.get("gufo.snmp.policer", "BasePolicer")

                class Pol(pol):
                    def get_timeout(self, ts):
                        w.log("asked", ts)
                        return 250_000_000

                kw = {}
                if ver == "v3d":
                    kw.update(engine_id=b"", user=v3user(w, m))
                s = mk(w, m, ver[:2] if ver != "v2c" else ver, policer=Pol(), limit_rps=3, **kw)
                if ver == "v1":
                    m.call(w, s, "get", "1.3.6")
                    m.walk(w, s.getnext("1.3.6"))
                    m.walk(w, s.fetch("1.3.6"))
                    m.call(w, s, "get_many", ["1.3.6"])
                    m.call(w, s, "get_many", ["1.3.6", "1.3.7"])
                    return
                use_all(m, w, s, ver.startswith("v3"))

            def judge(w, r):
                if r[0] != "ok":
                    yield f"it ends with {r[0]} {r[1]!r}"
                    return
                last = None
                for e in w.events:
                    if e[1] == "asked":
                        last = e[0]
                    elif e[1] == "send":
                        if last is None:
                            yield f"{e[3]} is sent though the policer is not asked"
                            return
                        if e[0] < last + 250_000_000:
                            yield f"{e[3]} is sent {(e[0] - last) / 1e9} s after the policer asks for 0.25 s"
                            return
                        last = None

            c.run(f"{m.name} {ver} with a policer", lambda w: Mixed(w), body, judge)
