#!/usr/bin/env python3
"""Development tool: confirms planted bugs in a scratch copy (/tmp/bug) and writes seeded/<id>/.
seed.py spec.py [id...]; spec.py defines B(id, property, edits, demo, needs, breaks)."""
import os, subprocess, sys, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/bug"
L = []
def B(id, property, edits, demo, needs, breaks, mod=None): L.append((id, property, edits, demo, needs, breaks, mod))
exec(open(sys.argv[1]).read())
sh = lambda c, **k: subprocess.run(["bash", "-c", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
DEMO = '''#!/bin/bash
# exits 0 when the demonstration script, run by the built engine, ends with PASS
d=$(cd "$(dirname "$0")" && pwd)
out=$(LD_LIBRARY_PATH=_build timeout 100 _build/ratjs %s"$d/demo.js" 2>&1)
echo "$out" | tail -5
[ "$(echo "$out" | tail -1)" = PASS ]
'''
def tests():
    sh("bash /tmp/bugs/test.sh /tmp/bugs/t.json > /tmp/bugs/l 2>&1")
    t = json.load(open("/tmp/bugs/t.json")); return len(t["passed"]), len(t["failed"])
for id, prop, edits, demo, needs, breaks, mod in L:
    if len(sys.argv) > 2 and id not in sys.argv[2:]: continue
    sh("git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (W, W, W))
    d = "/tmp/bugs/" + id; shutil.rmtree(d, True); os.makedirs(d)
    open(d + "/demo.js", "w").write(demo.strip() + "\nprint('PASS\\n');\n")
    open(d + "/demo.sh", "w").write(DEMO % ("-m " if mod else ""))
    bad = None
    for f, a, b in edits:
        p = W + "/" + (f if "/" in f else "src/lib/" + f); s = open(p).read()
        if s.count(a) != 1: bad = "edit matches %d times in %s" % (s.count(a), f); break
        open(p, "w").write(s.replace(a, b))
    if bad: print(id, "BAD", bad); continue
    diff = subprocess.run(["git", "-C", W, "diff"], stdout=subprocess.PIPE, text=True).stdout
    sh("git -C %s checkout -q -- ." % W)
    key = os.path.join(V, "seeded", id, "patch.diff")
    b = sh("bash /tmp/bugs/build.sh", cwd=W)
    r0 = sh("bash %s/demo.sh" % d, cwd=W)
    if r0.returncode: print(id, "BAD demo fails on the clean tree:", r0.stdout[-400:]); continue
    open(d + "/patch.diff", "w").write(diff)
    sh("git -C %s apply %s/patch.diff" % (W, d))
    b = sh("bash /tmp/bugs/build.sh", cwd=W)
    if b.returncode: print(id, "BAD build:", b.stdout[-600:]); sh("git -C %s checkout -q -- ." % W); continue
    r1 = sh("bash %s/demo.sh" % d, cwd=W); t = tests()
    sh("git -C %s checkout -q -- ." % W)
    if not r1.returncode: print(id, "BAD demo passes with the bug"); continue
    if t[1] or t[0] < 59: print(id, "BAD tests", t); continue
    o = os.path.join(V, "seeded", id); shutil.rmtree(o, True); os.makedirs(o)
    for f in ("patch.diff", "demo.sh", "demo.js"): shutil.copy(d + "/" + f, o)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(o + "/meta.json", "w"), indent=1)
    print(id, "OK:", r1.stdout.strip().splitlines()[-1][:150] if r1.stdout.strip() else "")
