#!/usr/bin/env python3
"""Planted bugs. seed.py save NAME PROPERTY NP THREADS "needs" "what it breaks" < demo.cpp
   takes /repo's uncommitted change as the patch, checks that the demo fails with it and passes without, undoes it.
   seed.py check NAME [PROPERTY]: applies the patch, runs the quick check(s), undoes it."""
import sys, os, subprocess, shutil, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWNBAD = ['vax-ex.sh:measfile', 'sim-example.sh:run', 'Nlaplaprob', 'fourth-test', 'fifth-test', 'maskedenergy']
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def build():
    r = sh("bash /opt/vp/build.sh", cwd="/repo")
    if r.returncode: sys.exit("build failed\n" + r.stdout[-3000:])
def undo(): sh("git -C /repo checkout -- .")
def demo(d):
    r = sh("timeout 280 bash %s/demo.sh" % d, cwd="/repo"); return r.returncode, r.stdout[-1500:]
if sys.argv[1] == "save":
    name, prop, np, th, needs, what = sys.argv[2:8]; d = V + "/seeded/" + name; os.makedirs(d, exist_ok=True)
    p = sh("git -C /repo diff").stdout
    if not p.strip(): sys.exit("no change in /repo")
    open(d + "/patch.diff", "w").write(p)
    src = sys.stdin.read()
    if src.startswith("#!"): open(d + "/demo.sh", "w").write(src)
    else:
        open(d + "/demo.cpp", "w").write(src)
        for f in ("jax.h", "jax.cpp", "pbt.h", "ref.h"): shutil.copy(V + "/harness/" + f, d)
        for f in ("kit.cpp", "run.sh"): shutil.copy(V + "/tools/demokit/" + f, d)
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexec bash "$(dirname "$0")/run.sh" %s %s %s\n' % (name, np, th))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
    try:
        build(); rc, out = demo(d)
        t = sh("bash /opt/vp/test.sh /tmp/seedtest.json", cwd="/repo"); stable = [l for l in t.stdout.splitlines() if l.startswith("FAIL") and not any(x in l for x in KNOWNBAD)]
        if stable: print("THE REPOSITORY'S TESTS CATCH IT:", stable)
        print("patched demo rc=%d\n%s" % (rc, out))
    finally: undo()
    build(); rc2, out2 = demo(d); print("clean demo rc=%d\n%s" % (rc2, out2))
    print("SAVED OK" if rc != 0 and rc2 == 0 else "NOT GOOD")
    sys.argv = ["", "check", name, prop] if rc and not rc2 else ["", ""]
if sys.argv[1] == "check":
    name = sys.argv[2]; d = V + "/seeded/" + name
    props = sys.argv[3:] or [json.load(open(d + "/meta.json"))["property"]]
    r = sh("git -C /repo apply " + d + "/patch.diff")
    if r.returncode: sys.exit("does not apply: " + r.stdout)
    try:
        for p in props:
            r = sh("timeout 900 python3 %s/run.py %s --seed 1" % (V, p), cwd=V); print(name, p, "rc=%d" % r.returncode, [l for l in r.stdout.splitlines() if "VIOLATION" in l][:3], r.stdout[-700:] if r.returncode != 1 else "")
    finally: undo()
