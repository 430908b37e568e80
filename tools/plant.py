#!/usr/bin/env python3
"""plant.py ID PROPERTY < spec: creates seeded/ID from a spec (python source that
sets edits=[(file, old, new)], needs, breaks, demo) after trying it in /repo."""
import json, os, shutil, subprocess, sys
V = "/verif"
bid, prop = sys.argv[1], sys.argv[2]
ns = {}
exec(sys.stdin.read(), ns)
d = f"{V}/seeded/{bid}"
os.makedirs(d, exist_ok=True)
def sh(c, **k): return subprocess.run(c, shell=True, cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
assert sh("git status --short").stdout == "", "repo not clean"
env = ". /opt/vp/env.sh; "
open(d + "/demo.sh", "w").write('#!/bin/bash\n. /opt/vp/env.sh\nexec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
os.chmod(d + "/demo.sh", 0o755)
shutil.copy(V + "/tools/demo/hprof.py", d)
open(d + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom hprof import *\n" + ns["demo"].lstrip())
json.dump({"property": prop, "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
r = sh(d + "/demo.sh")
if r.returncode != 0:
    print("demo fails on the unchanged tree:\n", r.stdout[-3000:]); sys.exit(1)
try:
    for f, a, b in ns["edits"]:
        s = open("/repo/" + f).read()
        assert s.count(a) == 1, (f, a, s.count(a))
        open("/repo/" + f, "w").write(s.replace(a, b))
    open(d + "/patch.diff", "w").write(sh("git diff").stdout)
    r = sh("bash /opt/vp/build.sh"); assert r.returncode == 0, r.stdout
    r = sh(env + "gofmt -l internal cmd; go vet ./... "); print(r.stdout)
    sh("bash /opt/vp/test.sh /tmp/plant.json")
    res = json.load(open("/tmp/plant.json")); base = json.load(open("/opt/vp/BASELINE.json"))
    print("failed:", res["failed"], "passed", len(res["passed"]))
    r = sh(d + "/demo.sh"); print("demo rc with patch", r.returncode, r.stdout[-400:])
    assert r.returncode != 0
    sh(f". /opt/vp/env.sh; cd {V}/checker && go build -o /tmp/njplant .")
    r = sh("/tmp/njplant -verif /tmp/ve -prop all 2>/dev/null")
    import re
    hit = sorted(set(re.findall(r"^VIOLATION property=(C\d+)", r.stdout, re.M)))
    print("\n".join([l for l in r.stdout.splitlines() if " hold " not in l][:14])[:1800])
    print("CAUGHT BY", hit, "(property", prop + ")", "OK" if prop in hit else "MISSED")
finally:
    sh("git checkout -- .")
