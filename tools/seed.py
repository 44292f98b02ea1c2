#!/usr/bin/env python3
"""tools/seed.py ID [--check]: confirm a planted bug in /repo's working tree (applied, tested, undone)"""
import json, os, subprocess, sys, random
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def one(i):
    d = ROOT + "/seeded/" + i; meta = json.load(open(d + "/meta.json")); out = [i, meta["property"]]
    assert sh("git -C /repo status --porcelain -uno").stdout == "", "repo dirty"
    sh("bash /opt/vp/build.sh")
    r = sh("bash %s/demo.sh" % d, cwd="/repo"); out.append("clean demo %d" % r.returncode)
    if r.returncode: print(r.stdout[-800:], r.stderr[-800:])
    a = sh("git -C /repo apply %s/patch.diff" % d)
    if a.returncode: print(i, "patch does not apply", a.stderr); return
    try:
        b = sh("bash /opt/vp/test.sh /tmp/seed_o.json"); miss = base - set(json.load(open("/tmp/seed_o.json"))["passed"])
        out.append("tests " + ("ok" if not miss else "BROKEN " + str(miss)))
        r = sh("bash %s/demo.sh" % d, cwd="/repo"); out.append("patched demo %d %s" % (r.returncode, (r.stdout.strip() or r.stderr.strip())[-100:]))
        if "--nocheck" not in sys.argv:
            c = sh("VERIF_SEED=1 VERIF_TIER=quick python3 %s/checks/run.py %s quick" % (ROOT, meta["property"])); out.append("check %d" % c.returncode)
    finally:
        sh("git -C /repo checkout -- ."); sh("bash /opt/vp/build.sh")
    print(" | ".join(out), flush=True)
ids = [x for x in sys.argv[1:] if not x.startswith("-")] or sorted(os.listdir(ROOT + "/seeded"))
for i in ids: one(i)
