"""Loader for the extracted MIR."""
import json


class Ty:
    __slots__ = ("id", "s", "k", "d")

    def __init__(self, r):
        self.id = r["id"]
        self.s = r["str"]
        self.k = r["k"]
        self.d = r

    def __repr__(self):
        return f"<{self.s}>"


class Fn:
    __slots__ = ("key", "name", "d", "locals", "blocks", "argc", "spread", "local", "crate", "defn", "args", "file", "line", "loops", "heads", "live")

    def __init__(self, r, db):
        self.key = r["key"]
        self.name = r["name"]
        self.defn = r["def"]
        self.args = r["args"]
        self.d = r
        self.locals = [db.tys[t] for t in r["locals"]]
        self.blocks = r["blocks"]
        self.argc = r["argc"]
        self.spread = r["spread"]
        self.local = r["local"]
        self.crate = r["crate"]
        self.file = r["file"]
        self.line = r["line"]
        self.heads = None
        self.live = None
        self.loops = None

    def succ(self, b):
        t = self.blocks[b]["t"]
        k = t["t"]
        if k == "switch":
            return [x[1] for x in t["br"]] + [t["else"]]
        to = t.get("to")
        return [] if to is None else [to]

    def loop_heads(self):
        """Targets of back edges -> blocks of the natural loop."""
        if self.heads is not None:
            return self.heads
        color = {}
        heads = {}
        order = []
        backs = []
        stack = [(0, iter(self.succ(0)))]
        color[0] = 1
        while stack:
            n, it = stack[-1]
            for m in it:
                c = color.get(m, 0)
                if c == 0:
                    color[m] = 1
                    stack.append((m, iter(self.succ(m))))
                    break
                if c == 1:
                    backs.append((n, m))
            else:
                color[n] = 2
                order.append(n)
                stack.pop()
        pred = {}
        for n in color:
            for m in self.succ(n):
                pred.setdefault(m, []).append(n)
        for n, h in backs:
            body = heads.setdefault(h, {h})
            todo = [n]
            while todo:
                x = todo.pop()
                if x in body:
                    continue
                body.add(x)
                todo.extend(pred.get(x, []))
        self.heads = heads
        return heads

    def live_in(self, bb):
        """Locals which may be read after the entry of the block."""
        if self.live is None:
            self.live = self._liveness()
        return self.live[bb]

    def _liveness(self):
        def uses_place(p, gen, kill, write):
            if write and not p[1]:
                if p[0] not in gen:
                    kill.add(p[0])
                return
            if p[0] not in kill:
                gen.add(p[0])
            for e in p[1]:
                if e[0] == "i" and e[1] not in kill:
                    gen.add(e[1])

        def uses_op(o, gen, kill):
            if o.get("p") is not None:
                uses_place(o["p"], gen, kill, False)

        def uses_rv(r, gen, kill):
            k = r[0]
            if k in ("ref", "addr", "len", "discr"):
                uses_place(r[1], gen, kill, False)
            elif k in ("bin", "cbin"):
                uses_op(r[2], gen, kill)
                uses_op(r[3], gen, kill)
            elif k in ("un", "cast"):
                uses_op(r[2], gen, kill)
            elif k == "agg":
                for o in r[2]:
                    uses_op(o, gen, kill)
            elif k in ("use", "repeat"):
                uses_op(r[1], gen, kill)

        gk = []
        for b in self.blocks:
            gen, kill = set(), set()
            for s in b["s"]:
                if s[0] == "=":
                    uses_rv(s[2], gen, kill)
                    uses_place(s[1], gen, kill, True)
                elif s[0] == "setd":
                    uses_place(s[1], gen, kill, False)
                elif s[0] == "assume":
                    uses_op(s[1], gen, kill)
                elif s[0] == "copyno":
                    for o in s[1:4]:
                        uses_op(o, gen, kill)
            t = b["t"]
            k = t["t"]
            if k == "switch":
                uses_op(t["on"], gen, kill)
            elif k == "assert":
                uses_op(t["cond"], gen, kill)
            elif k == "drop":
                uses_place(t["p"], gen, kill, False)
            elif k == "return":
                if 0 not in kill:
                    gen.add(0)
            elif k == "call":
                if "dyn" in t["f"]:
                    uses_op(t["f"]["dyn"], gen, kill)
                for o in t["args"]:
                    uses_op(o, gen, kill)
                uses_place(t["dst"], gen, kill, True)
            gk.append((gen, kill))
        live = [set() for _ in self.blocks]
        ch = True
        while ch:
            ch = False
            for i in range(len(self.blocks) - 1, -1, -1):
                out = set()
                for x in self.succ(i):
                    out |= live[x]
                n = gk[i][0] | (out - gk[i][1])
                if n != live[i]:
                    live[i] = n
                    ch = True
        return live

    def __repr__(self):
        return f"fn {self.name}"


class DB:
    def __init__(self, path):
        self.tys = {}
        self.allocs = {}
        self.fns = {}
        self.by_name = {}
        self.nexts = {}
        fr = []
        ok = False
        with open(path) as f:
            for line in f:
                r = json.loads(line)
                k = r["r"]
                if k == "fn":
                    fr.append(r)
                elif k == "ty":
                    self.tys[r["id"]] = Ty(r)
                elif k == "alloc":
                    self.allocs[r["id"]] = r
                elif k == "next":
                    self.nexts[r["ty"]] = r["inst"]
                elif k == "end":
                    ok = True
        if not ok:
            raise RuntimeError("truncated MIR dump")
        for r in fr:
            f = Fn(r, self)
            self.fns[f.key] = f
            self.by_name.setdefault(f.name, []).append(f)
        self.by_str = {}
        for t in self.tys.values():
            self.by_str.setdefault(t.s, t)

    def local_fns(self):
        return [f for f in self.fns.values() if f.local]

    # Pretty printing
    def place(self, p):
        s = f"_{p[0]}"
        for e in p[1]:
            if e[0] == "*":
                s = f"(*{s})"
            elif e[0] == "f":
                s += f".{e[1]}"
            elif e[0] == "d":
                s += f"@{e[1]}"
            elif e[0] == "i":
                s += f"[_{e[1]}]"
            else:
                s += str(e)
        return s

    def op(self, o):
        if o["o"] in ("copy", "move"):
            return self.place(o["p"])
        if o["o"] == "const":
            if "fn" in o:
                return "fn:" + o["fn"]["name"]
            if "a" in o:
                return f"const({o['a'].get('bytes')},{o['a'].get('ptrs')}:{self.tys[o['ty']].s})"
            return f"const({ {k: v for k, v in o.items() if k not in ('o', 'ty')} }:{self.tys[o['ty']].s})"
        return str(o)

    def rv(self, r):
        k = r[0]
        if k == "use":
            return self.op(r[1])
        if k in ("ref", "addr"):
            return f"&{'mut ' if r[2] is True else ''}{self.place(r[1])}"
        if k in ("bin", "cbin"):
            return f"{r[1]}({self.op(r[2])}, {self.op(r[3])})"
        if k == "un":
            return f"{r[1]}({self.op(r[2])})"
        if k == "cast":
            return f"{self.op(r[2])} as {self.tys[r[3]].s} [{r[1]}]"
        if k in ("len", "discr"):
            return f"{k}({self.place(r[1])})"
        if k == "agg":
            kk = r[1]
            n = self.tys[kk["ty"]].s + f"@{kk.get('v')}" if "ty" in kk else kk["k"]
            return f"{n}{{{', '.join(self.op(x) for x in r[2])}}}"
        if k == "repeat":
            return f"[{self.op(r[1])}; {r[2]}]"
        return str(r)

    def dump(self, f):
        out = [f"{f.name}  argc={f.argc} spread={f.spread} {f.file}:{f.line}"]
        for i, t in enumerate(f.locals):
            out.append(f"  _{i}: {t.s}")
        for i, b in enumerate(f.blocks):
            out.append(f" bb{i}:")
            for s in b["s"]:
                if s[0] == "=":
                    out.append(f"    {self.place(s[1])} = {self.rv(s[2])}   // {s[3]}")
                else:
                    out.append(f"    {s}")
            t = b["t"]
            k = t["t"]
            if k == "call":
                c = t["f"]
                nm = c.get("name") or "dyn " + str(c)
                have = "" if c.get("inst") in self.fns else " [ext]"
                out.append(f"    {self.place(t['dst'])} = {nm}{have}({', '.join(self.op(a) for a in t['args'])}) -> {t['to']}  // {t['ln']}")
            elif k == "switch":
                out.append(f"    switch {self.op(t['on'])} {t['br']} else {t['else']}")
            elif k == "assert":
                out.append(f"    assert {self.op(t['cond'])}=={t['exp']} {t['msg']} -> {t['to']}")
            else:
                out.append(f"    { {x: y for x, y in t.items() if x != 'file'} }")
        return "\n".join(out)


if __name__ == "__main__":
    import sys

    db = DB(sys.argv[1])
    for f in db.fns.values():
        if sys.argv[2] in f.name:
            print(db.dump(f))
            print()
