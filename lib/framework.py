"""Analysis units, obligations and the runner of the checks."""
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time
import traceback

LIB = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(LIB)
sys.path.insert(0, LIB)
sys.setrecursionlimit(20000)

UNITS = []


class Unit:
    def __init__(self, name, props, f, tier, limit, src):
        self.name, self.props, self.f, self.tier, self.limit, self.src = name, props, f, tier, limit, src


def unit(name, *props, tier="quick", limit=150, src="mir"):
    def deco(f):
        UNITS.append(Unit(name, props, f, tier, limit, src))
        return f

    return deco


class Ctx:
    """What a unit has found."""

    def __init__(self, db, repo, tier, props):
        self.db = db
        self.repo = repo
        self.tier = tier
        self.props = props
        self.obs = {}
        self.fns = set()
        self.n_paths = 0
        self.n_blocks = 0
        self.notes = []

    def ob(self, props, key, status, detail="", where=""):
        """One obligation; a violation overrides the other verdicts for the key."""
        if isinstance(props, str):
            props = props.split()
        rank = {"ok": 0, "undecided": 1, "violation": 2}
        for p in props:
            k = (p, key)
            o = self.obs.get(k)
            if o is None or rank[status] > rank[o["status"]]:
                n = (o["n"] if o else 0) + 1
                self.obs[k] = {"prop": p, "key": key, "status": status, "detail": detail, "where": where, "n": n}
            else:
                o["n"] += 1

    def ok(self, props, key, detail="", where=""):
        self.ob(props, key, "ok", detail, where)

    def bad(self, props, key, detail, where=""):
        self.ob(props, key, "violation", detail, where)

    def undecided(self, props, key, detail="", where=""):
        self.ob(props, key, "undecided", detail, where)

    def note(self, s):
        self.notes.append(s)

    def result(self):
        return {
            "obs": list(self.obs.values()),
            "fns": sorted(self.fns),
            "paths": self.n_paths,
            "blocks": self.n_blocks,
            "notes": self.notes,
        }


class Alarm(Exception):
    pass


def _alarm(*_):
    raise Alarm()


_db = {}


def get_db(path):
    if path not in _db:
        import mirdb

        _db[path] = mirdb.DB(path)
    return _db[path]


def run_unit(args):
    name, path, repo, tier, props, limit, deadline = args
    import units  # noqa: F401 - registers

    u = [u for u in UNITS if u.name == name][0]
    import world
    import interp

    t = time.time()
    ctx = None
    err = None
    if deadline is not None:
        # The whole check ends in time, whatever the tree looks like
        limit = max(2, min(limit, deadline - t))
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(limit))
    try:
        db = get_db(path) if u.src == "mir" else None
        ctx = Ctx(db, repo, tier, props)
        u.f(ctx)
    except Alarm:
        err = "time limit"
    except world.Missing as e:
        err = f"missing: {e}"
    except interp.Budget:
        err = "budget"
    except MemoryError:
        err = "memory"
    except Exception as e:
        err = f"{type(e).__name__}: {e} @ " + traceback.format_exc().splitlines()[-3].strip()
    finally:
        signal.alarm(0)
    r = ctx.result() if ctx is not None else {"obs": [], "fns": [], "paths": 0, "blocks": 0, "notes": []}
    r["unit"] = name
    r["error"] = err
    r["wall"] = round(time.time() - t, 2)
    return r


def extract():
    """MIR of the current tree."""
    build = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))
    os.makedirs(build, exist_ok=True)
    out = os.path.join(build, f"mir.{os.getpid()}.json")
    p = subprocess.run(["bash", os.path.join(LIB, "extract.sh"), out], capture_output=True, text=True)
    if p.returncode != 0:
        return None, (p.stdout + p.stderr)[-3000:]
    return out, ""


def known_findings():
    p = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                # finding: property=<id> key=<key> <what fails>
                d = dict(x.split("=", 1) for x in line.split()[1:3])
                out.append((d["property"], d["key"], line.split(None, 3)[3]))
    return out


def main(prop, tier, only=None, verbose=False):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    repo = os.environ.get("VERIF_REPO", "/repo")
    import units  # noqa: F401

    us = [u for u in UNITS if (prop in u.props or prop == "ALL") and (tier == "thorough" or u.tier == "quick") and (not only or u.name in only)]
    given = os.environ.get("VERIF_MIR")
    mir, log = (given, "") if given else extract()
    if mir is None:
        print("the tree does not build:\n" + log)
        return 2
    try:
        scale = 4 if tier == "thorough" else 1
        deadline = t0 + 700 if tier == "quick" and prop != "ALL" else None
        jobs = [(u.name, mir, repo, tier, u.props, u.limit * scale, deadline) for u in us]
        n = min(len(jobs), os.cpu_count() or 4) or 1
        if n == 1 or os.environ.get("VERIF_SERIAL"):
            res = [run_unit(j) for j in jobs]
        else:
            order = sorted(range(len(us)), key=lambda i: -us[i].limit)
            with mp.Pool(n, maxtasksperchild=1) as pool:
                res = list(pool.imap_unordered(run_unit, [jobs[i] for i in order]))
    finally:
        if not given and os.path.exists(mir):
            os.unlink(mir)
    known = known_findings()
    obs = [o for r in res for o in r["obs"] if o["prop"] == prop or prop == "ALL"]
    merged = {}
    rank = {"ok": 0, "undecided": 1, "violation": 2}
    for o in obs:
        k = (o["prop"], o["key"])
        m = merged.get(k)
        if m is None:
            merged[k] = dict(o)
        elif rank[o["status"]] > rank[m["status"]]:
            merged[k] = dict(o, n=o["n"] + m["n"])
        else:
            m["n"] += o["n"]
    obs = sorted(merged.values(), key=lambda o: (o["prop"], o["key"]))
    viol = [o for o in obs if o["status"] == "violation"]
    und = [o for o in obs if o["status"] == "undecided"]
    okk = [o for o in obs if o["status"] == "ok"]
    shown = [o for o in viol if not any(p == o["prop"] and k == o["key"] for p, k, _ in known)]
    wall = round(time.time() - t0, 1)
    for r in sorted(res, key=lambda r: r["unit"]):
        e = f"  [{r['error']}]" if r["error"] else ""
        print(f"unit {r['unit']}: {len(r['obs'])} obligations, {len(r['fns'])} functions, {r['paths']} paths, {r['wall']} s{e}")
        if verbose:
            for x in r["notes"][:20]:
                print("    note", x[:300])
    for o in und:
        print(f"undecided {o['prop']} {o['key']}: {o['detail'][:200]}")
    if verbose:
        for o in okk:
            print(f"ok {o['prop']} {o['key']} x{o['n']} {o['detail'][:160]}")
    edir = os.environ.get("VERIF_EVIDENCE", os.path.join(ROOT, "evidence"))
    os.makedirs(edir, exist_ok=True)
    fns = sorted({f for r in res for f in r["fns"]})
    cov = {
        "explanation": "Static analysis of the monomorphic MIR / the Python syntax trees of the current tree; nothing is executed. "
        "Each obligation is decided over the abstract paths of the functions listed.",
        "rule": "an obligation is discharged when every abstract path which reaches it satisfies the stated relation; it is a violation when a path does not and concrete input values satisfying all the facts of that path were exhibited; otherwise it is undecided",
        "obligations_discharged": len(okk),
        "obligation_instances": sum(o["n"] for o in obs),
        "obligations_undecided": len(und),
        "violations": len(viol),
        "paths_analysed": sum(r["paths"] for r in res),
        "basic_blocks_analysed": sum(r["blocks"] for r in res),
        "functions_analysed": len(fns),
        "functions": fns[:400],
        "units": [{"unit": r["unit"], "wall_s": r["wall"], "error": r["error"]} for r in res],
        "discharged": [f"{o['key']}: {o['detail'][:200]} (x{o['n']})" for o in okk][:300],
        "undecided": [f"{o['key']}: {o['detail'][:200]}" for o in und][:100],
        "notes": [x[:300] for r in res for x in r["notes"]][:60],
    }
    if prop != "ALL":
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": wall},
                  open(os.path.join(edir, f"{prop}.json"), "w"), indent=1)
    for p, k, what in known:
        if any(o["prop"] == p and o["key"] == k for o in viol):
            print(f"KNOWN-FINDING: property={p} {what}")
    if shown:
        rp = os.path.join(edir, f"{prop}.violations.txt")
        with open(rp, "w") as f:
            for o in shown:
                f.write(f"property={o['prop']} rule={o['key']}\n  construct: {o['where']}\n  {o['detail']}\n")
        for o in shown:
            print(f"  {o['prop']} {o['key']} at {o['where']}: {o['detail'][:600]}")
        for p in sorted({o["prop"] for o in shown}):
            print(f"VIOLATION property={p} replay={rp}")
        return 1
    print(f"{prop} {tier}: {len(okk)} obligations discharged, {len(und)} undecided, {len(viol)} known, {wall} s")
    if not okk:
        print("nothing was decided")
        return 2
    return 0
