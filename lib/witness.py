"""A finding is only believed when concrete values of the inputs satisfy every fact of the
path and show the difference: the abstraction may lose what makes a path infeasible.
The values are found by repairing violated facts one by one."""
import random

import terms as T
from terms import Term, C, TRUE
from vals import B, S, Z


class Unknown(Exception):
    pass


# searches which found nothing
failed = 0

BAD = ("unk", "wid")


def is_bad(name):
    if isinstance(name, tuple):
        if name and name[0] in BAD:
            return True
        return any(is_bad(x) for x in name if isinstance(x, tuple))
    return False


class Env:
    def __init__(self, rnd, pick):
        self.v = {}
        self.rnd = rnd
        self.pick = pick

    def key(self, t):
        return self._key(t.a), t.w

    def _key(self, n):
        if isinstance(n, Term):
            return self.val(n)
        if isinstance(n, tuple):
            if n and all(x.__class__ in (B, S, Z) for x in n):
                return self._runs(n)
            return tuple(self._key(x) for x in n)
        return n

    def _runs(self, ps):
        """Contents of a rope, the same however it is cut into pieces."""
        out = []
        memo = {}

        def run(reg, off, ln):
            if ln == 0:
                return
            if out and out[-1][0] == reg:
                r, o, n = out[-1]
                if reg == "lit":
                    out[-1] = (r, o + off, n + ln)
                    return
                if o + n == off:
                    out[-1] = (r, o, n + ln)
                    return
            out.append((reg, off, ln))

        for p in ps:
            if p.__class__ is S:
                if p.ety is not None:
                    return tuple(tuple(self._key(x) for x in q) for q in ps)
                k = memo.get(id(p.region))
                if k is None:
                    k = memo[id(p.region)] = self._key(p.region)
                run(k, self._key(p.off), self._key(p.len))
                continue
            v = p.v if p.__class__ is B else p.val
            n = 1 if p.__class__ is B else self._key(p.len)
            if not isinstance(v, Term) or v.w != 8 or n > 1 << 20:
                return tuple(tuple(self._key(x) for x in q) for q in ps)
            if v.op == "v" and isinstance(v.a, tuple) and v.a[0] == "byte" and n == 1:
                k = memo.get(id(v.a[1]))
                if k is None:
                    k = memo[id(v.a[1])] = self._key(v.a[1])
                run(k, self._key(v.a[2]), 1)
            else:
                run("lit", bytes([self.val(v)]) * n, n)
        return ("runs",) + tuple(out)

    def val(self, t):
        o = t.op
        if o == "c":
            return t.a
        if o == "v":
            if is_bad(t.a):
                raise Unknown(t.a)
            k = self.key(t)
            v = self.v.get(k)
            if v is None:
                v = self.v[k] = self.pick(t)
            return v
        m = (1 << t.w) - 1
        if o == "lin":
            r = t.a[0]
            for a, k in t.a[1]:
                r += k * self.val(a)
            return r & m
        if o == "bits":
            memo = {}
            r = 0
            for i, b in enumerate(t.a):
                if b.__class__ is int:
                    r |= b << i
                else:
                    x = memo.get(b[0])
                    if x is None:
                        x = memo[b[0]] = self.val(b[0])
                    r |= (((x >> b[1]) & 1) ^ b[2]) << i
            return r
        return self.op(t, m) & m

    def sval(self, t):
        v = self.val(t)
        return v - (1 << t.w) if v >> (t.w - 1) else v

    def op(self, t, m):
        n, *a = t.a
        if n == "eq":
            return int(self.val(a[0]) == self.val(a[1]))
        if n == "ult":
            return int(self.val(a[0]) < self.val(a[1]))
        if n == "slt":
            return int(self.sval(a[0]) < self.sval(a[1]))
        if n == "not":
            return 1 - self.val(a[0]) if t.w == 1 else ~self.val(a[0])
        if n == "ite":
            return self.val(a[1]) if self.val(a[0]) else self.val(a[2])
        if n == "mul":
            return self.val(a[0]) * self.val(a[1])
        if n in ("udiv", "urem"):
            y = self.val(a[1])
            if y == 0:
                raise Unknown(n)
            return self.val(a[0]) // y if n == "udiv" else self.val(a[0]) % y
        if n in ("sdiv", "srem"):
            x, y = self.sval(a[0]), self.sval(a[1])
            if y == 0:
                raise Unknown(n)
            q = abs(x) // abs(y)
            q = -q if (x < 0) != (y < 0) else q
            return q if n == "sdiv" else x - q * y
        if n == "and":
            return self.val(a[0]) & self.val(a[1])
        if n == "or":
            return self.val(a[0]) | self.val(a[1])
        if n == "xor":
            return self.val(a[0]) ^ self.val(a[1])
        if n in ("shl", "lshr", "ashr"):
            s = self.val(a[1]) % t.w
            if n == "shl":
                return self.val(a[0]) << s
            return (self.val(a[0]) if n == "lshr" else self.sval(a[0])) >> s
        if n.startswith("ovf_"):
            f = self.sval if n.endswith("s") and n != "ovf_subu" else self.val
            sg = n[-1] == "s"
            f = self.sval if sg else self.val
            x, y = f(a[0]), f(a[1])
            k = n[4:-1].lower()
            r = x + y if k.startswith("add") else x - y if k.startswith("sub") else x * y
            w = a[0].w
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
            return int(not lo <= r <= hi)
        raise Unknown(n)

    # Repair
    def invert(self, t, target, d=0):
        """Change the inputs to make the term equal to the target."""
        o = t.op
        if d > 12:
            return False
        if o == "c":
            return t.a == target
        if o == "v":
            if is_bad(t.a):
                raise Unknown(t.a)
            dd = T.decl(t)
            if dd and not dd[0] <= target <= dd[1]:
                return False
            self.v[self.key(t)] = target
            return True
        if o == "lin":
            rest = {a: self.val(a) for a, _ in t.a[1]}
            items = list(t.a[1])
            self.rnd.shuffle(items)
            m = 1 << t.w
            for a, k in items:
                if k % 2 == 0:
                    continue
                r = t.a[0] + sum(kk * rest[x] for x, kk in t.a[1] if x is not a)
                if self.invert(a, ((target - r) * pow(k, -1, m)) % m, d + 1):
                    return True
            return False
        if o == "bits":
            need = {}
            for i, b in enumerate(t.a):
                want = (target >> i) & 1
                if b.__class__ is int:
                    if b != want:
                        return False
                else:
                    mask, val = need.get(b[0], (0, 0))
                    bit = 1 << b[1]
                    w2 = want ^ b[2]
                    if mask & bit and bool(val & bit) != bool(w2):
                        return False
                    need[b[0]] = (mask | bit, val | (bit if w2 else 0))
            ok = True
            for x, (mask, val) in need.items():
                ok = self.invert(x, (self.val(x) & ~mask) | val, d + 1) and ok
            return ok
        n, *a = t.a
        if n == "not":
            return self.invert(a[0], (1 - target) if t.w == 1 else ~target & ((1 << t.w) - 1), d + 1)
        if n == "eq":
            return self.force_eq(a[0], a[1], bool(target), d)
        if n in ("ult", "slt"):
            return self.force_lt(a[0], a[1], n == "slt", bool(target), d)
        if n == "ite":
            c = self.rnd.random() < 0.5
            return self.invert(a[0], int(c), d + 1) and self.invert(a[1] if c else a[2], target, d + 1)
        if n in ("and", "or") and t.w == 1:
            if (n == "and") == bool(target):
                return self.invert(a[0], target, d + 1) and self.invert(a[1], target, d + 1)
            return self.invert(self.rnd.choice(a[:2]), target, d + 1)
        if n == "xor":
            return self.invert(a[0], target ^ self.val(a[1]), d + 1)
        if n == "mul" and a[1].op == "c" and a[1].a and target % a[1].a == 0:
            return self.invert(a[0], target // a[1].a, d + 1)
        if n == "udiv" and a[1].op == "c":
            return self.invert(a[0], target * a[1].a + self.rnd.randrange(a[1].a), d + 1)
        if n == "urem" and a[1].op == "c":
            x = self.val(a[0])
            return self.invert(a[0], x - x % a[1].a + target, d + 1)
        # Something else: shake an input
        at = [x for x in T.atoms(t) if not is_bad(x.a)]
        if at:
            x = self.rnd.choice(at)
            self.v[self.key(x)] = self.pick(x)
            return True
        return False

    def force_eq(self, x, y, eq, d=0):
        if eq:
            if self.rnd.random() < 0.5:
                x, y = y, x
            return self.invert(x, self.val(y), d + 1) or self.invert(y, self.val(x), d + 1)
        if self.val(x) != self.val(y):
            return True
        m = (1 << x.w) - 1
        for z in (x, y) if self.rnd.random() < 0.5 else (y, x):
            if self.invert(z, (self.val(z) + self.rnd.choice((1, -1, 3, 1 << self.rnd.randrange(x.w)))) & m, d + 1):
                return True
        return False

    def force_lt(self, x, y, signed, lt, d=0):
        f = self.sval if signed else self.val
        w = x.w
        m = (1 << w) - 1
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, m)
        a, b = f(x), f(y)
        g = self.rnd.choice((0, 0, 0, 1, 2, 5, 40, 1000))
        opts = []
        if lt:
            opts = [(x, b - 1 - g), (y, a + 1 + g)]
        else:
            opts = [(x, b + g), (y, a - g)]
        self.rnd.shuffle(opts)
        for t, v in opts:
            if lo <= v <= hi and self.invert(t, v & m, d + 1):
                return True
        return False


def cell_lazy_ok(n):
    return not is_bad(n)


def facts(st):
    """What the state knows: (test, repair) pairs."""
    out = []

    def add(test, rep):
        out.append((test, rep))

    for b, v in st.pred.items():
        add(lambda e, b=b, v=v: e.val(b) == int(v), lambda e, b=b, v=v: e.invert(b, int(v)))
    for t, (lo, hi) in st.rng.items():
        add(lambda e, t=t, lo=lo, hi=hi: lo <= e.val(t) <= hi,
            lambda e, t=t, lo=lo, hi=hi: e.invert(t, e.rnd.choice((lo, hi, e.rnd.randint(lo, hi), min(hi, lo + e.rnd.randint(0, 20))))))
    for t, (lo, hi) in st.srng.items():
        m = (1 << t.w) - 1
        add(lambda e, t=t, lo=lo, hi=hi: lo <= e.sval(t) <= hi, lambda e, t=t, lo=lo, hi=hi, m=m: e.invert(t, e.rnd.choice((lo, hi, e.rnd.randint(lo, hi))) & m))
    for (t, i), v in st.bitk.items():
        add(lambda e, t=t, i=i, v=v: (e.val(t) >> i) & 1 == v, lambda e, t=t, i=i: e.invert(t, e.val(t) ^ (1 << i)))
    for c, items in st.lins:
        def test(e, c=c, items=items):
            return c + sum(k * e.val(a) for a, k in items) >= 0

        def rep(e, c=c, items=items):
            cur = c + sum(k * e.val(a) for a, k in items)
            its = list(items)
            e.rnd.shuffle(its)
            for a, k in its:
                n = -(-(-cur) // abs(k)) + e.rnd.choice((0, 0, 0, 1, 3))
                v = e.val(a) + (n if k > 0 else -n)
                if 0 <= v < 1 << a.w and e.invert(a, v):
                    return True
            return False

        add(test, rep)
    p = st.path
    seen = set()
    while p is not None:
        q = p
        p = p[0]
        if len(q) == 3 and isinstance(q[1], Term) and q[1].w == 1 and q[1] not in seen and q[2].__class__ is bool:
            seen.add(q[1])
            b, v = q[1], q[2]
            if b in st.pred:
                continue
            add(lambda e, b=b, v=v: e.val(b) == int(v), lambda e, b=b, v=v: e.invert(b, int(v)))
    return out


def bad_path(st):
    """The path depends on something the analysis does not model."""
    p = st.path
    while p is not None:
        q = p
        p = p[0]
        for x in q[1:]:
            if isinstance(x, Term):
                if any(is_bad(a.a) for a in T.atoms(x)):
                    return True
            elif hasattr(x, "name") and is_bad(x.name):
                return True
    return False


def search(st, goal=(), tries=60, steps=400, seed=1):
    """Values which satisfy the state and the goal terms (pairs (bool term, value)), or None.
    `goal` may also be a callable over the environment."""
    global failed
    if bad_path(st):
        return None
    if failed > 6:
        tries = max(6, tries // 8)
    if failed > 20:
        tries, steps = 4, 200
    if failed > 60:
        tries, steps = 2, 100
    fs = facts(st)
    test_goal = None
    if callable(goal):
        test_goal = goal
    else:
        for b, v in goal:
            fs.append((lambda e, b=b, v=v: e.val(b) == int(v), lambda e, b=b, v=v: e.invert(b, int(v))))
    rnd = random.Random(seed)

    def pick(t):
        lo, hi = st.urange(t)
        d = T.decl(t)
        if d:
            lo, hi = max(lo, d[0]), min(hi, d[1])
        if lo > hi:
            return lo
        r = rnd.random()
        if mode == 0:
            return lo if r < 0.9 else min(hi, lo + rnd.randint(0, 8))
        if r < 0.3:
            return rnd.choice((lo, hi))
        if r < 0.6:
            return min(hi, lo + rnd.randint(0, 300))
        return rnd.randint(lo, hi)

    for k in range(tries):
        mode = 0 if k < 5 else 1
        e = Env(rnd, pick)
        try:
            for _ in range(steps):
                viol = [f for f in fs if not f[0](e)]
                if not viol:
                    if test_goal is None or test_goal(e):
                        return e
                    break
                f = viol[0] if rnd.random() < 0.6 else rnd.choice(viol)
                if not f[1](e):
                    # Shake
                    ks = list(e.v)
                    if ks:
                        del e.v[rnd.choice(ks)]
        except Unknown:
            return None
        except RecursionError:
            return None
    failed += 1
    return None


def describe(e, limit=12):
    out = []
    for (n, w), v in sorted(e.v.items(), key=lambda kv: str(kv[0]))[:limit]:
        out.append(f"{name(n)}={v:#x}")
    return ", ".join(out)


def name(n):
    if isinstance(n, tuple):
        return ".".join(name(x) for x in n)
    return str(n)
