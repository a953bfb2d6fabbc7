"""plant.py ID < spec.json : writes /verif/seeded/ID from a list of replacements (run by hand)."""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def plant(id, prop, edits, needs, breaks, demo):
    d = os.path.join(HERE, "..", "seeded", id)
    os.makedirs(d, exist_ok=True)
    w = f"/tmp/plant-{id}"
    subprocess.run(["git", "-C", "/repo", "worktree", "add", "-f", "--detach", w, "HEAD"], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", w, "diff"], check=True, stdout=subprocess.PIPE).stdout
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
    finally:
        subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", w], check=True)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "demo.py"), "w").write("from kit import *\n" + demo.lstrip("\n"))
    shutil.copy(os.path.join(HERE, "kit.py"), os.path.join(d, "kit.py"))
    shutil.copy(os.path.join(HERE, "demo.sh"), os.path.join(d, "demo.sh"))
