"""Run the interpreter on one function with unknown arguments and print the partitions."""
import sys, time, os

sys.path.insert(0, os.path.dirname(__file__))
import mirdb, interp, terms as T
from state import State


def fresh_args(I, st, fn):
    out = []
    for i in range(fn.argc):
        out.append(I.fresh(st, fn.locals[i + 1], ("arg", i + 1)))
    return out


def path_of(st):
    r = []
    p = st.path
    while p is not None:
        p, *rest = p
        r.append(rest)
    r.reverse()
    return r


if __name__ == "__main__":
    db = mirdb.DB(os.environ.get("MIRDB", "/verif/build/mir.json"))
    fns = [f for f in db.local_fns() if sys.argv[1] in f.name]
    ex = [f for f in fns if f.name == sys.argv[1]]
    fns = ex or fns
    print([f.name for f in fns][:10])
    I = interp.Interp(db, K=int(os.environ.get("K", "10")))
    st = State()
    fn = fns[0]
    t = time.time()
    outs = I.run(st, fn, fresh_args(I, st, fn))
    print(f"{len(outs)} outs, {time.time()-t:.2f}s, {I.steps} steps")
    for s, v in outs[: int(os.environ.get("N", "12"))]:
        print("->", str(v)[:300])
        if os.environ.get("P"):
            for x in path_of(s):
                print("      ", str(x)[:160])
    for p in I.panics[:12]:
        print("PANIC", p.kind, p.msg[:100], p.stack[-3:], p.ln)
        if os.environ.get("P"):
            for x in path_of(p.st):
                print("      ", str(x)[:160])
    for u in {u for u in I.unsup}:
        print("UNSUP", str(u)[:300])
    print("unknown", I.unknown_calls, "loops", I.loops)
