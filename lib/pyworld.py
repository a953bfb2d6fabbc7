"""Environment of the Python clients: extension module, clocks, event loop, agent."""
import asyncio
import itertools
import time as rtime
import types

import lin
from pyi import *
from pyi import Interp as PyInterp

NS = 1_000_000_000


class Hang(Control):
    """Nothing will ever happen again."""


class Value:
    """Value the program gets from or gives to the other side: never looked into."""

    def __init__(self, w, name, truth=None):
        self.__dict__.update(w=w, name=name, truth=truth)

    def __bool__(self):
        if self.truth is None:
            self.__dict__["truth"] = self.w.path.choose(2) == 0
        return self.truth

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        raise Unsupported(f"{a} of a value")

    def _no(self, *a, **k):
        raise Unsupported("operation on a value")

    __add__ = __radd__ = __len__ = __iter__ = __getitem__ = __lt__ = __gt__ = __le__ = __ge__ = __int__ = __index__ = __float__ = __call__ = __contains__ = _no

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, Value) or o is None:
            return False
        return self.w.path.choose(2) == 1

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return f"<{self.name}>"


class World:
    """One run."""

    def __init__(self, root, path, agent=None):
        self.path = path
        lin.Path.cur = path
        self.now = 5_000_000_000
        self.events = []
        self.agent = agent
        self.deadlines = []
        self.socks = []
        self.readers, self.writers, self.timers = {}, {}, []
        self.loop = None
        self.ids = itertools.count()
        self.I = PyInterp(root, self.models())
        self.running = False

    def value(self, name, truth=None):
        return Value(self, name, truth)

    def log(self, *e):
        self.events.append((self.now,) + e)

    # ------------------------------------------------------------- models
    def models(self):
        w = self
        m = {}
        ns = types.SimpleNamespace

        def pass_(d):
            w.advance(d)

        def clock(f):
            return lambda: f(w.now)

        sec = lambda n: n / 1e9
        m["time"] = ns(perf_counter_ns=clock(lambda n: n), monotonic_ns=clock(lambda n: n), time_ns=clock(lambda n: n), perf_counter=clock(sec), monotonic=clock(sec), time=clock(sec), sleep=lambda s: pass_(s))
        m["asyncio"] = AsyncIO(w)
        m["asyncio.exceptions"] = m["asyncio.events"] = m["asyncio.tasks"] = m["asyncio.futures"] = m["asyncio"]
        m["gufo.snmp._fast"] = fast(w)
        m["builtins"] = {}
        m["calls"] = {float: lin.to_float, int: lin.to_int, isinstance: isinst}
        m["threading"] = ns(Lock=NoLock, RLock=NoLock)
        m["socket"] = ns(timeout=TimeoutError, error=OSError, gaierror=OSError)
        return m

    def advance(self, seconds):
        """Time passes, at most until a deadline."""
        if isinstance(seconds, lin.Num):
            self.now = self.now + seconds * NS
            return
        if seconds != seconds:
            raise ValueError("Invalid delay")
        d = max(0, round(seconds * NS))
        self.until(self.now + d)

    def until(self, t):
        dl = [(x.at, x.k, x) for x in self.deadlines if x.at is not None and x.at <= t]
        if dl:
            _, _, x = min(dl)
            if x.at > self.now:
                self.now = x.at
            x.hit = True
            raise asyncio.CancelledError()
        self.now = max(self.now, t)

    def wait_future(self, f):
        """The loop runs until the future is done."""
        for _ in range(2000):
            if f.isdone:
                return f.result()
            evs = []
            for fd, (cb, a) in list(self.readers.items()):
                t = self.agent.readable(self) if self.agent else None
                if t is not None:
                    evs.append((max(t, self.now), 0, cb, a, None))
            for fd, (cb, a) in list(self.writers.items()):
                t = self.agent.writable(self) if self.agent else self.now
                if t is not None:
                    evs.append((max(t, self.now), 1, cb, a, None))
            for h in self.timers:
                if not h.dead:
                    evs.append((max(h.at, self.now), 2, h.cb, h.a, h))
            evs.sort(key=lambda e: e[:2])
            if not evs:
                if not any(x.at is not None for x in self.deadlines):
                    raise Hang()
                self.until(1 << 80)
            t, _, cb, a, h = evs[0]
            self.until(t)
            if h is not None:
                h.dead = True
            cb(*a)
        raise Hang()

    def cancel_wait(self, x):
        pass

    # -------------------------------------------------------------- running
    def module(self, name):
        return self.I.module(name)

    def get(self, mod, name):
        return self.I.import_from(mod, name)

    def run(self, v):
        """Coroutines are run, anything else is returned."""
        if isinstance(v, Coro) or hasattr(type(v), "wait_"):
            return self.I.await_(v)
        return v


def isinst(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(x, lin.Num):
        return any((k is float and x.r) or (k is int and not x.r) or k is object for k in ts)
    if isinstance(x, Value):
        raise Unsupported("type of a value")
    return isinstance(x, t)


class NoLock:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def acquire(self, *a, **k):
        return True

    def release(self):
        pass


class Deadline:
    n = itertools.count()

    def __init__(self, at):
        self.at, self.hit = at, False
        self.k = next(Deadline.n)


class Future:
    def __init__(self, w):
        self.w = w
        self.isdone = False
        self.val = self.exc = None
        self.cbs = []

    @classmethod
    def __class_getitem__(cls, k):
        return cls

    def done(self):
        return self.isdone

    def cancelled(self):
        return isinstance(self.exc, asyncio.CancelledError)

    def cancel(self, msg=None):
        if self.isdone:
            return False
        self._set(None, asyncio.CancelledError())
        return True

    def _set(self, v, e):
        if self.isdone:
            raise asyncio.InvalidStateError("invalid state")
        self.isdone, self.val, self.exc = True, v, e
        for f in self.cbs:
            f(self)

    def set_result(self, v):
        self._set(v, None)

    def set_exception(self, e):
        self._set(None, e() if isinstance(e, type) else e)

    def add_done_callback(self, f):
        self.cbs.append(f)

    def result(self):
        if not self.isdone:
            raise asyncio.InvalidStateError("Result is not set.")
        if self.exc is not None:
            raise self.exc
        return self.val

    def exception(self):
        return self.exc

    def wait_(self):
        try:
            return self.w.wait_future(self)
        except asyncio.CancelledError:
            if not self.isdone:
                self.isdone, self.exc = True, asyncio.CancelledError()
            raise


class Handle:
    def __init__(self, at, cb, a):
        self.at, self.cb, self.a, self.dead = at, cb, a, False

    def cancel(self):
        self.dead = True


class Loop:
    def __init__(self, w):
        self.w = w

    def create_future(self):
        return Future(self.w)

    def add_reader(self, fd, cb, *a):
        self.w.readers[fd] = (cb, a)

    def remove_reader(self, fd):
        return self.w.readers.pop(fd, None) is not None

    def add_writer(self, fd, cb, *a):
        self.w.writers[fd] = (cb, a)

    def remove_writer(self, fd):
        return self.w.writers.pop(fd, None) is not None

    def time(self):
        return self.w.now / 1e9

    def call_later(self, d, cb, *a):
        h = Handle(self.w.now + round(d * NS), cb, a)
        self.w.timers.append(h)
        return h

    def call_at(self, t, cb, *a):
        h = Handle(round(t * NS), cb, a)
        self.w.timers.append(h)
        return h

    def call_soon(self, cb, *a):
        return self.call_later(0, cb, *a)

    def __getattr__(self, n):
        raise Unsupported(f"loop.{n}")


class AsyncIO:
    """The asyncio module."""

    TimeoutError = TimeoutError
    CancelledError = asyncio.CancelledError
    InvalidStateError = asyncio.InvalidStateError
    Future = Future

    def __init__(self, w):
        self.w = w
        self.lp = Loop(w)

        def wait_for(x, timeout=None, **kw):
            if kw:
                raise Unsupported("wait_for")

            def run():
                return w_timeout(w, timeout, lambda: w.run(x))

            return Coro(run, "wait_for")

        def sleep(d, r=None):
            def run():
                w.advance(d)
                return r

            return Coro(run, "sleep")

        class timeout:
            def __init__(self, d):
                self.d = d

            def __aenter__(self):
                def run():
                    self.dl = Deadline(None if self.d is None else w.now + round(self.d * NS))
                    w.deadlines.append(self.dl)
                    return self

                return Coro(run, "timeout")

            def __aexit__(self, t, e, tb):
                def run():
                    w.deadlines.remove(self.dl)
                    if self.dl.hit and isinstance(e, asyncio.CancelledError):
                        raise TimeoutError from e
                    return None

                return Coro(run, "timeout")

        class Lock:
            def __aenter__(self):
                return Coro(lambda: None, "lock")

            def __aexit__(self, *a):
                return Coro(lambda: None, "lock")

            def acquire(self):
                return Coro(lambda: True, "lock")

            def release(self):
                pass

            def locked(self):
                return False

        self.wait_for, self.sleep, self.timeout, self.Lock = wait_for, sleep, timeout, Lock
        self.Semaphore = self.BoundedSemaphore = lambda *a: Lock()
        self.get_running_loop = self.get_event_loop = lambda: self.lp
        self.iscoroutinefunction = lambda f: False
        self.AbstractEventLoop = Loop

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"asyncio.{n}")


def w_timeout(w, timeout, f):
    if timeout is None:
        return f()
    if timeout != timeout:
        raise ValueError("Invalid delay")
    d = Deadline(w.now + round(timeout * NS) if timeout < 1e18 else 1 << 79)
    w.deadlines.append(d)
    try:
        return f()
    except asyncio.CancelledError as e:
        if d.hit:
            raise TimeoutError from e
        raise
    finally:
        w.deadlines.remove(d)


# -------------------------------------------------------------------- _fast
OPS = ("get", "get_many", "get_next", "get_bulk", "refresh")
ARGS = {
    "v1": ("addr", "community", "tos", "send_buffer", "recv_buffer", "timeout_ns"),
    "v2c": ("addr", "community", "tos", "send_buffer", "recv_buffer", "timeout_ns"),
    "v3": ("addr", "engine_id", "user", "auth_alg", "auth_key", "priv_alg", "priv_key", "tos", "send_buffer", "recv_buffer", "timeout_ns"),
}


def fast(w):
    class SnmpError(Exception):
        pass

    class SnmpEncodeError(SnmpError):
        pass

    class SnmpDecodeError(SnmpError):
        pass

    class SnmpAuthError(SnmpError):
        pass

    class NoSuchInstance(SnmpError):
        pass

    class GetIter:
        def __init__(self, oid, max_repetitions=None):
            self.oid, self.max_repetitions = oid, max_repetitions
            w.log("iter", self)
            if w.agent is not None:
                w.agent.iter(self)

    def sock(ver):
        class Sock:
            def __init__(self, *a, **kw):
                names = ARGS[ver]
                if len(a) > len(names):
                    raise TypeError("arguments")
                d = dict(zip(names, a))
                for k, v in kw.items():
                    k = {"user_name": "user", "send_buffer_size": "send_buffer", "recv_buffer_size": "recv_buffer"}.get(k, k)
                    if k not in names or k in d:
                        raise TypeError(k)
                    d[k] = v
                if len(d) != len(names):
                    raise TypeError("missing arguments")
                self.ver, self.args, self.fd = ver, d, 10 + len(w.socks)
                self.pending = None
                w.socks.append(self)
                w.log("new", self, d)

            def get_fd(self):
                return self.fd

        def add(op):
            def send(self, *a):
                return do_send(self, op, a)

            def recv(self, *a):
                return do_recv(self, op, a)

            def both(self, *a):
                do_send(self, op, a, True)
                return w.agent.blocking(w, self, op, a)

            setattr(Sock, op, both)
            setattr(Sock, "send_" + op, send)
            setattr(Sock, "recv_" + op, recv)

        def do_send(self, op, a, block=False):
            want = 0 if op == "refresh" else 1
            if len(a) != want:
                raise TypeError(f"{op} takes {want}")
            if op in ("get_next", "get_bulk") and type(a[0]).__name__ != "GetIter":
                raise TypeError("GetIter expected")
            a = tuple(list(x) if isinstance(x, (list, tuple)) else x for x in a)
            w.agent.sending(w, self, op, a, block)
            w.log("send", self, op, a)

        def do_recv(self, op, a):
            want = 1 if op in ("get_next", "get_bulk") else 0
            if len(a) != want:
                raise TypeError(f"recv_{op} takes {want}")
            w.log("recv", self, op, a)
            return w.agent.receive(w, self, op, a)

        for op in OPS:
            if op == "refresh" and ver != "v3":
                continue
            add(op)
        if ver == "v3":

            def set_keys(self, *a, **kw):
                names = ARGS["v3"][2:7]
                d = dict(zip(names, a))
                for k, v in kw.items():
                    d[{"user_name": "user"}.get(k, k)] = v
                if set(d) != set(names):
                    raise TypeError("arguments of set_keys")
                w.agent.keys(w, self, d)
                w.log("keys", self, d)

            def get_engine_id(self):
                return w.agent.engine_id(self)

            Sock.set_keys, Sock.get_engine_id = set_keys, get_engine_id
        Sock.__name__ = f"Snmp{ver[0].upper()}{ver[1:]}ClientSocket"
        return Sock

    ns = types.SimpleNamespace(**{c.__name__: c for c in (SnmpError, SnmpEncodeError, SnmpDecodeError, SnmpAuthError, NoSuchInstance, GetIter)})
    for v in ARGS:
        c = sock(v)
        setattr(ns, c.__name__, c)
    ns.get_master_key = lambda alg, passwd: ("master", alg, passwd)
    ns.get_localized_key = lambda alg, key, eid: ("localized", alg, key, eid)
    return ns


class Agent:
    """The other side: an answer for every request, after some datagrams which are none."""

    def __init__(self, answers=(), delays=(), full=(), junk=()):
        # answers: list of callables w -> value (or raising), one per request; delays: ns, None for never
        self.answers, self.delays, self.full, self.junk = list(answers), list(delays), list(full), list(junk)
        self.k = -1
        self.tries = 0
        self.queue = []
        self.sent_at = None
        self.iters = []
        self.wr = None
        self.learned = False

    def iter(self, it):
        self.iters.append(it)

    def sending(self, w, s, op, a, block):
        """May raise: the datagram is not sent then."""
        n = self.tries
        self.tries += 1
        if n < len(self.full) and self.full[n] and not block:
            self.wr = w.now + self.full[n]
            raise BlockingIOError()
        self.k += 1
        self.sent_at = w.now
        self.op = op
        d = self.delays[self.k] if self.k < len(self.delays) else 1000
        # Stale datagrams stay in the queue
        j = self.junk[self.k] if self.k < len(self.junk) else ()
        self.queue = [(w.now + x, None) for x in j] + ([(w.now + d, self.k)] if d is not None else [])
        self.queue.sort(key=lambda e: e[0])

    def readable(self, w):
        return self.queue[0][0] if self.queue else None

    def writable(self, w):
        return self.wr if self.wr is not None else w.now

    def reply(self, w, k):
        f = self.answers[k] if k < len(self.answers) else self.more
        return f(w)

    def more(self, w):
        return w.value(f"reply {self.k}")

    def receive(self, w, s, op, a):
        while self.queue and self.queue[0][0] <= w.now:
            t, k = self.queue.pop(0)
            if k is not None:
                return self.reply(w, k)
        raise BlockingIOError()

    def blocking(self, w, s, op, a):
        tmo = s.args["timeout_ns"]
        end = None if not tmo else w.now + tmo
        while self.queue:
            t, k = self.queue[0]
            if end is not None and t > end:
                break
            self.queue.pop(0)
            w.now = max(w.now, t)
            if k is not None:
                w.log("recv", s, op, a)
                return self.reply(w, k)
        if end is None:
            raise Hang()
        w.now = end
        raise BlockingIOError()

    def keys(self, w, s, d):
        pass

    def engine_id(self, s):
        return b"engine"
