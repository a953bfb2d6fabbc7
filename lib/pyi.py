"""Abstract interpretation of the Python sources: syntax trees evaluated over abstract values in a modelled environment.

Bodies of functions are walked here; names of other modules resolve to models (the extension module, clocks, the event loop).
Numbers may be linear forms over named unknowns (lin.py), a branch on one splits the path."""
import ast
import builtins
import importlib
import os
import threading
import types


class Control(BaseException):
    """Not an exception of the program."""


class Unsupported(Control):
    pass


class Infeasible(Control):
    pass


class Budget(Control):
    pass


class _Break(Control):
    pass


class _Continue(Control):
    pass


class _Return(Control):
    def __init__(self, v):
        self.v = v


class _Kill(Control):
    pass


REAL = {
    "__future__", "typing", "types", "abc", "enum", "math", "collections", "collections.abc", "functools", "contextlib", "dataclasses", "itertools", "operator", "sys", "logging", "warnings", "re", "ipaddress",
    "fractions", "decimal", "string", "textwrap", "copy", "weakref", "errno", "typing_extensions", "numbers",
}


class Env:
    __slots__ = ("d", "up", "mod", "glob", "nonl", "cls", "first", "fn")

    def __init__(self, up, mod, cls=None):
        self.d, self.up, self.mod, self.cls = {}, up, mod, cls
        self.glob, self.nonl = (), ()
        self.first = None
        self.fn = None


class Coro:
    """Call of an async function, not yet awaited."""

    def __init__(self, run, name):
        self.run, self.name = run, name
        self.used = False

    def go(self):
        if self.used:
            raise RuntimeError("cannot reuse already awaited coroutine")
        self.used = True
        return self.run()

    def __await__(self):
        raise Unsupported("real await")

    def close(self):
        self.used = True


class Gen:
    """Generator: the body runs in a thread of its own, one of both at a time."""

    def __init__(self, I, run):
        self.I, self.run = I, run
        self.t = None
        self.a, self.b = threading.Semaphore(0), threading.Semaphore(0)
        self.fin = False
        self.msg = None
        self.out = None
        I.gens.append(self)

    def _body(self):
        self.a.acquire()
        try:
            k, v = self.msg
            if k == "throw":
                raise v
            self.out = ("ret", self.run(self))
        except BaseException as e:  # noqa: BLE001
            self.out = ("exc", e)
        self.b.release()

    def yield_(self, v):
        self.out = ("yield", v)
        self.b.release()
        self.a.acquire()
        k, v = self.msg
        if k == "throw":
            raise v
        return v

    def _step(self, msg):
        if self.fin:
            if msg[0] == "throw":
                raise msg[1]
            raise StopIteration
        if self.t is None:
            self.t = threading.Thread(target=self._body, daemon=True)
            self.t.start()
        self.msg = msg
        self.a.release()
        self.b.acquire()
        k, v = self.out
        if k == "yield":
            return v
        self.fin = True
        if k == "ret":
            raise StopIteration(v)
        raise v

    def __iter__(self):
        return self

    def __next__(self):
        return self._step(("send", None))

    def send(self, v):
        return self._step(("send", v))

    def throw(self, e, *a):
        return self._step(("throw", e if isinstance(e, BaseException) else e()))

    def close(self):
        if self.fin or self.t is None:
            self.fin = True
            return
        try:
            self._step(("throw", GeneratorExit()))
        except (GeneratorExit, StopIteration):
            pass

    def kill(self):
        if self.t is not None and not self.fin:
            try:
                self._step(("throw", _Kill()))
            except BaseException:  # noqa: BLE001
                pass


class AGen:
    """Asynchronous generator."""

    def __init__(self, g):
        self.g = g

    def __aiter__(self):
        return self

    def __anext__(self):
        def run():
            try:
                return next(self.g)
            except StopIteration:
                raise StopAsyncIteration from None

        return Coro(run, "anext")

    def aclose(self):
        return Coro(self.g.close, "aclose")


TREES = {}


class Interp:
    """One run: modules are evaluated afresh."""

    def __init__(self, root, models, steps=400_000):
        self.root = root
        self.models = models
        self.mods = {}
        self.gens = []
        self.left = steps
        self.funcs = set()
        self.aw = None
        self.over = {}
        self.depth = 0

    def end(self):
        for g in self.gens:
            g.kill()
        self.gens = []

    # ------------------------------------------------------------ modules
    def parse(self, path):
        if path not in TREES:
            with open(path, encoding="utf-8") as f:
                TREES[path] = ast.parse(f.read(), path)
        return TREES[path]

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        if name in self.models:
            m = self.models[name]
            self.mods[name] = m
            return m
        if name == "gufo" or name.startswith("gufo."):
            p = os.path.join(self.root, *name.split("."))
            path = p + ".py" if os.path.isfile(p + ".py") else os.path.join(p, "__init__.py")
            if not os.path.isfile(path):
                if os.path.isdir(p):
                    m = types.SimpleNamespace(__name__=name, __path__=True)
                    self.mods[name] = m
                    return m
                raise ModuleNotFoundError(name)
            m = types.SimpleNamespace(__name__=name, __file__=path)
            m.__package__ = name if path.endswith("__init__.py") else name.rpartition(".")[0]
            self.mods[name] = m
            env = Env(None, m)
            env.d = m.__dict__
            self.block(self.parse(path).body, env)
            return m
        if name in REAL:
            m = importlib.import_module(name)
            self.mods[name] = m
            return m
        raise Unsupported(f"module {name}")

    def import_from(self, mod, name):
        m = self.module(mod)
        if hasattr(m, name):
            return getattr(m, name)
        if mod.startswith("gufo"):
            try:
                return self.module(mod + "." + name)
            except ModuleNotFoundError:
                pass
            raise ImportError(f"cannot import name {name} from {mod}")
        raise Unsupported(f"{name} of {mod}")

    # ---------------------------------------------------------- functions
    def function(self, n, env, name):
        """A real function which walks the body."""
        a = n.args
        dflt = [self.ev(x, env) for x in a.defaults]
        kwd = [None if x is None else (self.ev(x, env),) for x in a.kw_defaults]
        pos = [x.arg for x in a.posonlyargs + a.args]
        npo = len(a.posonlyargs)
        kwo = [x.arg for x in a.kwonlyargs]
        is_async = isinstance(n, ast.AsyncFunctionDef)
        body = n.body if not isinstance(n, ast.Lambda) else None
        gen = body is not None and is_gen(n)
        I = self
        cls = env.cls

        def bind(args, kw):
            e = Env(env if env.cls is None or env.fn else env.up, env.mod)
            e.fn = (name, cls)
            d = e.d
            kw = dict(kw)
            if len(args) > len(pos) and not a.vararg:
                raise TypeError(f"{name}() takes {len(pos)} positional arguments but {len(args)} were given")
            for i, p in enumerate(pos):
                if i < len(args):
                    if p in kw and i >= npo:
                        raise TypeError(f"{name}() got multiple values for argument '{p}'")
                    d[p] = args[i]
                elif p in kw and i >= npo:
                    d[p] = kw.pop(p)
                elif i >= len(pos) - len(dflt):
                    d[p] = dflt[i - (len(pos) - len(dflt))]
                else:
                    raise TypeError(f"{name}() missing required argument '{p}'")
            for p, k in zip(kwo, kwd):
                if p in kw:
                    d[p] = kw.pop(p)
                elif k is not None:
                    d[p] = k[0]
                else:
                    raise TypeError(f"{name}() missing required keyword-only argument '{p}'")
            if a.vararg:
                d[a.vararg.arg] = tuple(args[len(pos) :])
            if a.kwarg:
                d[a.kwarg.arg] = kw
            elif kw:
                raise TypeError(f"{name}() got an unexpected keyword argument '{next(iter(kw))}'")
            e.first = args[0] if args else None
            return e

        def run(e):
            I.funcs.add(f"{env.mod.__name__}.{name}")
            I.depth += 1
            if I.depth > 60:
                I.depth = 0
                raise Unsupported("recursion")
            try:
                if body is None:
                    return I.ev(n.body, e)
                I.block(body, e)
            except _Return as r:
                return r.v
            finally:
                I.depth -= 1
            return None

        def f(*args, **kw):
            e = bind(args, kw)
            if gen:

                def body_(g):
                    e.d["\0gen"] = g
                    return run(e)

                g = Gen(I, body_)
                return AGen(g) if is_async else g
            if is_async:
                return Coro(lambda: run(e), name)
            return run(e)

        f.__name__ = name
        f.__qualname__ = name
        f.__module__ = env.mod.__name__
        f.__kwdefaults__ = None
        f.interp = I
        return f

    def klass(self, n, env):
        bases = []
        for b in n.bases:
            v = self.ev(b, env)
            if hasattr(v, "__mro_entries__") and not isinstance(v, type):
                bases += v.__mro_entries__(tuple(bases))
            else:
                bases.append(v)
        kwds = {k.arg: self.ev(k.value, env) for k in n.keywords}
        ce = Env(env if env.cls is None else env.up, env.mod, cls=[None])

        def body(ns):
            ns["__module__"] = env.mod.__name__
            ce.d = ns
            self.block(n.body, ce)

        try:
            c = types.new_class(n.name, tuple(bases), kwds, body)
        except TypeError as e:
            raise Unsupported(f"class {n.name}: {e}")
        ce.cls[0] = c
        for d in reversed(n.decorator_list):
            c = self.ev(d, env)(c)
        return c

    # --------------------------------------------------------------- names
    def lookup(self, env, name):
        e = env
        while e is not None:
            if name in e.d:
                return e.d[name]
            e = e.up
        if name in env.mod.__dict__:
            return env.mod.__dict__[name]
        if name in self.models["builtins"]:
            return self.models["builtins"][name]
        if hasattr(builtins, name):
            if name in ("open", "exec", "eval", "compile", "__import__", "input", "globals", "locals", "vars"):
                raise Unsupported(name)
            return getattr(builtins, name)
        raise NameError(f"name '{name}' is not defined")

    def store(self, env, name, v):
        if name in env.glob:
            env.mod.__dict__[name] = v
            return
        if name in env.nonl:
            e = env.up
            while e is not None:
                if name in e.d and e.cls is None:
                    e.d[name] = v
                    return
                e = e.up
            raise NameError(name)
        env.d[name] = v

    def assign(self, t, v, env):
        k = t.__class__
        if k is ast.Name:
            self.store(env, t.id, v)
        elif k is ast.Attribute:
            setattr(self.ev(t.value, env), self.mangle(t.attr, env), v)
        elif k is ast.Subscript:
            self.ev(t.value, env)[self.ev(t.slice, env)] = v
        elif k in (ast.Tuple, ast.List):
            vs = list(v)
            st = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if st:
                i = st[0]
                m = len(t.elts) - i - 1
                if len(vs) < len(t.elts) - 1:
                    raise ValueError("not enough values to unpack")
                vs = vs[:i] + [vs[i : len(vs) - m]] + vs[len(vs) - m :]
            if len(vs) != len(t.elts):
                raise ValueError("values to unpack")
            for x, y in zip(t.elts, vs):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, env)
        else:
            raise Unsupported(k.__name__)

    # ---------------------------------------------------------- statements
    def block(self, body, env):
        for s in body:
            self.st(s, env)

    def st(self, n, env):
        self.left -= 1
        if self.left < 0:
            raise Budget("steps")
        m = getattr(self, "s_" + n.__class__.__name__, None)
        if m is None:
            raise Unsupported(n.__class__.__name__)
        return m(n, env)

    def s_Expr(self, n, env):
        self.ev(n.value, env)

    def s_Pass(self, n, env):
        pass

    def s_Return(self, n, env):
        raise _Return(self.ev(n.value, env) if n.value is not None else None)

    def s_Break(self, n, env):
        raise _Break()

    def s_Continue(self, n, env):
        raise _Continue()

    def s_Global(self, n, env):
        env.glob = tuple(env.glob) + tuple(n.names)

    def s_Nonlocal(self, n, env):
        env.nonl = tuple(env.nonl) + tuple(n.names)

    def s_Assign(self, n, env):
        v = self.ev(n.value, env)
        for t in n.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, n, env):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, env), env)
        if env.cls is not None and isinstance(n.target, ast.Name):
            env.d.setdefault("__annotations__", {})[n.target.id] = ast.unparse(n.annotation)

    def s_AugAssign(self, n, env):
        op = IOPS.get(n.op.__class__) or BINOPS[n.op.__class__]
        t = n.target
        if isinstance(t, ast.Name):
            self.store(env, t.id, op(self.lookup(env, t.id), self.ev(n.value, env)))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            a = self.mangle(t.attr, env)
            setattr(o, a, op(getattr(o, a), self.ev(n.value, env)))
        elif isinstance(t, ast.Subscript):
            o, k = self.ev(t.value, env), self.ev(t.slice, env)
            o[k] = op(o[k], self.ev(n.value, env))

    def s_Delete(self, n, env):
        for t in n.targets:
            if isinstance(t, ast.Name):
                env.d.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                delattr(self.ev(t.value, env), t.attr)
            elif isinstance(t, ast.Subscript):
                del self.ev(t.value, env)[self.ev(t.slice, env)]
            else:
                raise Unsupported("del")

    def s_If(self, n, env):
        self.block(n.body if self.ev(n.test, env) else n.orelse, env)

    def s_Assert(self, n, env):
        if not self.ev(n.test, env):
            raise AssertionError(*([self.ev(n.msg, env)] if n.msg else []))

    def s_While(self, n, env):
        while self.ev(n.test, env):
            self.left -= 1
            if self.left < 0:
                raise Budget("steps")
            try:
                self.block(n.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.block(n.orelse, env)

    def s_For(self, n, env):
        for v in self.ev(n.iter, env):
            self.assign(n.target, v, env)
            self.left -= 1
            if self.left < 0:
                raise Budget("steps")
            try:
                self.block(n.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.block(n.orelse, env)

    def s_AsyncFor(self, n, env):
        it = self.ev(n.iter, env).__aiter__()
        while True:
            try:
                v = self.await_(it.__anext__())
            except StopAsyncIteration:
                break
            self.assign(n.target, v, env)
            try:
                self.block(n.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.block(n.orelse, env)

    def s_With(self, n, env, k=0, aw=False):
        if k == len(n.items):
            return self.block(n.body, env)
        it = n.items[k]
        cm = self.ev(it.context_expr, env)
        t = type(cm)
        w = self.await_ if aw else lambda x: x
        v = w((t.__aenter__ if aw else t.__enter__)(cm))
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        ex = t.__aexit__ if aw else t.__exit__
        try:
            self.s_With(n, env, k + 1, aw)
        except (_Break, _Continue, _Return):
            w(ex(cm, None, None, None))
            raise
        except Control:
            raise
        except BaseException as e:  # noqa: BLE001
            if not w(ex(cm, type(e), e, None)):
                raise
        else:
            w(ex(cm, None, None, None))

    def s_AsyncWith(self, n, env):
        self.s_With(n, env, 0, True)

    def s_Try(self, n, env):
        try:
            self._try(n, env)
        except (Unsupported, Infeasible, Budget, _Kill):
            raise
        except BaseException:
            # The way out, with an exception of its own when it has one
            self.block(n.finalbody, env)
            raise
        else:
            self.block(n.finalbody, env)

    def _try(self, n, env):
        try:
            self.block(n.body, env)
        except Control:
            raise
        except BaseException as e:  # noqa: BLE001
            for h in n.handlers:
                if h.type is None:
                    ok = True
                else:
                    ok = isinstance(e, self.ev(h.type, env))
                if ok:
                    old = env.d.get("\0exc")
                    env.d["\0exc"] = e
                    if h.name:
                        self.store(env, h.name, e)
                    try:
                        self.block(h.body, env)
                    finally:
                        env.d["\0exc"] = old
                        if h.name and h.name in env.d:
                            del env.d[h.name]
                    return
            raise
        self.block(n.orelse, env)

    def s_Raise(self, n, env):
        if n.exc is None:
            e = env
            while e is not None:
                if e.d.get("\0exc") is not None:
                    raise e.d["\0exc"]
                e = e.up
            raise RuntimeError("No active exception to reraise")
        x = self.ev(n.exc, env)
        if isinstance(x, type):
            x = x()
        if not isinstance(x, BaseException):
            raise TypeError("exceptions must derive from BaseException")
        if n.cause is not None:
            c = self.ev(n.cause, env)
            x.__cause__ = c() if isinstance(c, type) else c
        raise x

    def s_FunctionDef(self, n, env):
        f = self.function(n, env, n.name)
        for d in reversed(n.decorator_list):
            f = self.ev(d, env)(f)
        self.store(env, n.name, f)

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, n, env):
        self.store(env, n.name, self.klass(n, env))

    def s_Import(self, n, env):
        for a in n.names:
            m = self.module(a.name)
            if a.asname:
                self.store(env, a.asname, m)
            else:
                self.store(env, a.name.split(".")[0], self.module(a.name.split(".")[0]))

    def s_ImportFrom(self, n, env):
        mod = n.module or ""
        if n.level:
            p = env.mod.__package__.split(".")
            p = p[: len(p) - n.level + 1]
            mod = ".".join(p + ([n.module] if n.module else []))
        for a in n.names:
            if a.name == "*":
                raise Unsupported("import *")
            self.store(env, a.asname or a.name, self.import_from(mod, a.name))

    def s_Match(self, n, env):
        v = self.ev(n.subject, env)
        for c in n.cases:
            if self.pat(c.pattern, v, env) and (c.guard is None or self.ev(c.guard, env)):
                return self.block(c.body, env)

    def pat(self, p, v, env):
        k = p.__class__.__name__
        if k == "MatchValue":
            return bool(v == self.ev(p.value, env))
        if k == "MatchSingleton":
            return v is p.value
        if k == "MatchOr":
            return any(self.pat(x, v, env) for x in p.patterns)
        if k == "MatchAs":
            if p.pattern is not None and not self.pat(p.pattern, v, env):
                return False
            if p.name:
                self.store(env, p.name, v)
            return True
        raise Unsupported(k)

    # --------------------------------------------------------- expressions
    def ev(self, n, env):
        self.left -= 1
        if self.left < 0:
            raise Budget("steps")
        m = getattr(self, "e_" + n.__class__.__name__, None)
        if m is None:
            raise Unsupported(n.__class__.__name__)
        return m(n, env)

    def e_Constant(self, n, env):
        return n.value

    def e_Name(self, n, env):
        return self.lookup(env, n.id)

    def e_Attribute(self, n, env):
        return getattr(self.ev(n.value, env), self.mangle(n.attr, env))

    def mangle(self, a, env):
        if a.startswith("__") and not a.endswith("__"):
            e = env
            while e is not None:
                if e.fn and e.fn[1] and e.fn[1][0] is not None:
                    return "_" + e.fn[1][0].__name__.lstrip("_") + a
                e = e.up
        return a

    def e_Subscript(self, n, env):
        return self.ev(n.value, env)[self.ev(n.slice, env)]

    def e_Slice(self, n, env):
        g = lambda x: None if x is None else self.ev(x, env)
        return slice(g(n.lower), g(n.upper), g(n.step))

    def e_Tuple(self, n, env):
        return tuple(self.elts(n.elts, env))

    def e_List(self, n, env):
        return self.elts(n.elts, env)

    def e_Set(self, n, env):
        return set(self.elts(n.elts, env))

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += list(self.ev(x.value, env))
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, n, env):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d.update(self.ev(v, env))
            else:
                d[self.ev(k, env)] = self.ev(v, env)
        return d

    def e_BinOp(self, n, env):
        a = self.ev(n.left, env)
        return BINOPS[n.op.__class__](a, self.ev(n.right, env))

    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        k = n.op.__class__
        return not v if k is ast.Not else -v if k is ast.USub else +v if k is ast.UAdd else ~v

    def e_BoolOp(self, n, env):
        v = None
        for x in n.values:
            v = self.ev(x, env)
            if isinstance(n.op, ast.And) != bool(v):
                return v
        return v

    def e_Compare(self, n, env):
        a = self.ev(n.left, env)
        r = True
        for o, x in zip(n.ops, n.comparators):
            b = self.ev(x, env)
            r = CMPS[o.__class__](a, b)
            if len(n.ops) > 1 and not r:
                return r
            a = b
        return r

    def e_IfExp(self, n, env):
        return self.ev(n.body if self.ev(n.test, env) else n.orelse, env)

    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        self.assign(n.target, v, env)
        return v

    def e_Lambda(self, n, env):
        return self.function(n, env, "<lambda>")

    def e_JoinedStr(self, n, env):
        return "".join(self.ev(x, env) for x in n.values)

    def e_FormattedValue(self, n, env):
        v = self.ev(n.value, env)
        if n.conversion == 114:
            v = repr(v)
        elif n.conversion == 115:
            v = str(v)
        return format(v, self.ev(n.format_spec, env) if n.format_spec else "")

    def e_Starred(self, n, env):
        raise Unsupported("starred")

    def e_Call(self, n, env):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            e = env
            while e is not None and (e.fn is None or not e.fn[1]):
                e = e.up
            if e is None:
                raise Unsupported("super")
            return super(e.fn[1][0], e.first)
        f = self.ev(n.func, env)
        args = self.elts(n.args, env)
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                kw.update(self.ev(k.value, env))
            else:
                kw[k.arg] = self.ev(k.value, env)
        try:
            h = self.models["calls"].get(f)
        except TypeError:
            h = None
        if h is not None:
            return h(*args, **kw)
        return f(*args, **kw)

    def e_Await(self, n, env):
        return self.await_(self.ev(n.value, env))

    def await_(self, v):
        if isinstance(v, Coro):
            return v.go()
        h = getattr(type(v), "wait_", None)
        if h is not None:
            return h(v)
        raise Unsupported(f"await of {type(v).__name__}")

    def gen_of(self, env):
        e = env
        while e is not None:
            if "\0gen" in e.d:
                return e.d["\0gen"]
            e = e.up
        raise Unsupported("yield")

    def e_Yield(self, n, env):
        return self.gen_of(env).yield_(self.ev(n.value, env) if n.value is not None else None)

    def e_YieldFrom(self, n, env):
        g = self.gen_of(env)
        it = iter(self.ev(n.value, env))
        while True:
            try:
                v = next(it)
            except StopIteration as e:
                return e.value
            g.yield_(v)

    def comp(self, n, env, f):
        def rec(k, e):
            if k == len(n.generators):
                f(e)
                return
            g = n.generators[k]
            src = self.ev(g.iter, e if k else env)
            if g.is_async:
                src = self.drain(src)
            for v in src:
                self.assign(g.target, v, e)
                if all(self.ev(c, e) for c in g.ifs):
                    rec(k + 1, e)

        e = Env(env if env.cls is None else env.up, env.mod)
        e.first, e.fn = env.first, env.fn
        rec(0, e)

    def drain(self, src):
        it = src.__aiter__()
        while True:
            try:
                v = self.await_(it.__anext__())
            except StopAsyncIteration:
                return
            yield v

    def e_ListComp(self, n, env):
        out = []
        self.comp(n, env, lambda e: out.append(self.ev(n.elt, e)))
        return out

    def e_SetComp(self, n, env):
        return set(self.e_ListComp(n, env))

    def e_GeneratorExp(self, n, env):
        return iter(self.e_ListComp(n, env))

    def e_DictComp(self, n, env):
        d = {}

        def f(e):
            d[self.ev(n.key, e)] = self.ev(n.value, e)

        self.comp(n, env, f)
        return d


def is_gen(n):
    st = list(n.body)
    while st:
        x = st.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st += list(ast.iter_child_nodes(x))
    return False


def _ops():
    import operator as o

    b = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.Div: o.truediv, ast.FloorDiv: o.floordiv, ast.Mod: o.mod, ast.Pow: o.pow, ast.LShift: o.lshift, ast.RShift: o.rshift, ast.BitOr: o.or_,
         ast.BitAnd: o.and_, ast.BitXor: o.xor, ast.MatMult: o.matmul}
    i = {ast.Add: o.iadd, ast.Sub: o.isub, ast.Mult: o.imul, ast.BitOr: o.ior, ast.BitAnd: o.iand}
    c = {ast.Eq: o.eq, ast.NotEq: o.ne, ast.Lt: o.lt, ast.LtE: o.le, ast.Gt: o.gt, ast.GtE: o.ge, ast.Is: lambda x, y: x is y, ast.IsNot: lambda x, y: x is not y, ast.In: lambda x, y: x in y,
         ast.NotIn: lambda x, y: x not in y}
    return b, i, c


BINOPS, IOPS, CMPS = _ops()
