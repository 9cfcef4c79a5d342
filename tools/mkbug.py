"""Creates seeded/<id>/ from a description file.

usage: mkbug.py FILE   where FILE defines: ID, PROPERTY, NEEDS, BREAKS,
EDITS = [(file, old, new)], DEMO (shell text after sourcing lib.sh), FILES = {name: text}
"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for path in sys.argv[1:]:
    ns = {}
    exec(open(path).read(), ns)
    d = os.path.join(ROOT, "seeded", ns["ID"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    t = tempfile.mkdtemp(prefix="mkbug-")
    try:
        subprocess.check_call("git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q && git add -A && git -c user.email=a@b -c user.name=a commit -qm x" % (t, t), shell=True)
        for f, old, new in ns["EDITS"]:
            p = os.path.join(t, f)
            s = open(p).read()
            if s.count(old) != 1:
                sys.exit("%s: %d matches of %r in %s" % (ns["ID"], s.count(old), old, f))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", t, "diff"], text=True)
    finally:
        shutil.rmtree(t)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/meta.json", "w").write(json.dumps({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, indent=1) + "\n")
    shutil.copy(ROOT + "/tools/demo_lib.sh", d + "/lib.sh")
    for n, x in ns.get("FILES", {}).items():
        open(os.path.join(d, n), "w").write(x)
    open(d + "/demo.sh", "w").write("#!/bin/bash\n. \"$(dirname \"$0\")/lib.sh\"\n" + ns["DEMO"])
    print(ns["ID"], "ok")
