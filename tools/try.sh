#!/bin/bash
# try.sh [-n] ID... : apply, build, test, demo, check, undo. -n: the check only
only=; [ "$1" = -n ] && { only=1; shift; }
cd /repo || exit 1
for id in "$@"; do
    d=/verif/seeded/$id
    p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    git diff --quiet || { echo "dirty"; exit 1; }
    if [ -z "$only" ] ; then bash $d/demo.sh >/tmp/try.log 2>&1 || echo "$id: demo fails on the clean tree: $(tail -1 /tmp/try.log | cut -c1-150)"; fi
    git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
    if [ -z "$only" ] ; then
        bash /opt/vp/build.sh >/tmp/try.log 2>&1 || echo "$id: does not build: $(grep -m3 error /tmp/try.log)"
        bash /opt/vp/test.sh /tmp/try.json >/tmp/try.log 2>&1
        python3 - "$id" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/try.json'))
def names(x):
    for k in ('passed','stable','tests'):
        if k in x: return set(x[k])
    return set()
m=names(b)-names(t)
print(sys.argv[1], 'tests:', 'same' if not m else f'{len(m)} fail: {sorted(m)[:3]}')
P
        if bash $d/demo.sh >/tmp/try.log 2>&1; then echo "$id: demo does not fail"; else echo "$id: demo: $(tail -1 /tmp/try.log | cut -c1-150)"; fi
    fi
    (cd /verif; env -u VERIF_MIR python3 check.py $p quick >/tmp/try.chk 2>&1; echo "$id: check rc=$? $(grep -c VIOLATION /tmp/try.chk) violations; $(grep VIOLATION -A1 /tmp/try.chk | head -2 | tr '\n' ' ' | cut -c1-250)")
    git checkout -q -- .
done
if [ -z "$only" ] ; then bash /opt/vp/build.sh >/tmp/try.log 2>&1; fi
