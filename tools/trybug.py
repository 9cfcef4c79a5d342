"""Confirms a planted bug in a scratch copy of /repo (bind mounted over /repo
in a private mount namespace) and runs checks against it.

usage: trybug.py ID... [--checks C01,C02] [--no-tests] [--jobs N]
"""
import argparse, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="+"); ap.add_argument("--checks"); ap.add_argument("--no-tests", action="store_true")
ap.add_argument("--jobs", type=int, default=1); ap.add_argument("--no-checks", action="store_true")
a = ap.parse_args()

def one(bug):
    d = os.path.join(ROOT, "seeded", bug)
    meta = json.load(open(d + "/meta.json"))
    s = tempfile.mkdtemp(prefix="bug-", dir="/tmp")
    script = """set -e
cp -a /repo %(s)s/repo
cp -a %(d)s %(s)s/demo; rm -f %(s)s/demo/patch.diff %(s)s/demo/meta.json
mount --bind %(s)s/repo /repo
cd /repo
git checkout -q -- .
if [ -z "%(notests)s" ]; then
 set +e
 bash %(s)s/demo/demo.sh >%(s)s/demo0.log 2>&1; echo "demo unchanged: $?"
 set -e
fi
git apply %(d)s/patch.diff
if [ -z "%(notests)s" ]; then
 bash /opt/vp/build.sh >%(s)s/build.log 2>&1 || { echo BUILD FAILED; tail -20 %(s)s/build.log; exit 1; }
 bash /opt/vp/test.sh %(s)s/t.json >%(s)s/test.log 2>&1 || true
 python3 -c "
import json
t=json.load(open('%(s)s/t.json')); b=json.load(open('/opt/vp/BASELINE.json'))
m=sorted(set(b['stable'])-set(t['passed'])); print('stable tests failing:', m[:5], len(m))"
 set +e
 timeout 300 bash %(s)s/demo/demo.sh >%(s)s/demo1.log 2>&1; echo "demo patched: $?"; tail -4 %(s)s/demo0.log | sed 's/^/    0| /'; tail -6 %(s)s/demo1.log | sed 's/^/    1| /'
fi
set +e
cd %(root)s
for c in %(checks)s; do
 VERIF_SEED=1 VERIF_TIER=quick timeout 900 /usr/bin/python3 -m vf.check $c >%(s)s/$c.log 2>&1; echo "check $c: exit $?"; grep -a -A6 -m1 VIOLATION %(s)s/$c.log; grep -a -m2 HARNESS %(s)s/$c.log
done
true
""" % dict(s=s, d=d, root=ROOT, notests="1" if a.no_tests else "",
           checks="" if a.no_checks else (a.checks or meta["property"]).replace(",", " "))
    r = subprocess.run(["unshare", "-m", "bash", "-c", script], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    shutil.rmtree(s, ignore_errors=True)
    return "== %s (%s)\n%s" % (bug, meta["property"], r.stdout)

with ThreadPoolExecutor(a.jobs) as ex:
    for out in ex.map(one, a.ids):
        print(out, flush=True)
