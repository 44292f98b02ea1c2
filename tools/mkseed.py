#!/usr/bin/env python3
"""tools/mkseed.py ID: read from stdin a python dict(property, needs, what_it_breaks, file, old, new, demo) and write seeded/ID"""
import os, sys, subprocess, json, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def mk(i, property, needs, what, edits, demo=None, sh=None, files={}):
    d = ROOT + "/seeded/" + i; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for f, old, new in edits:
        p = "/repo/scantool/" + f; s = open(p, encoding="latin-1").read(); assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w", encoding="latin-1").write(s.replace(old, new))
    open(d + "/patch.diff", "w", encoding="latin-1").write(subprocess.run("git -C /repo diff", shell=True, capture_output=True).stdout.decode("latin-1"))
    subprocess.run("git -C /repo checkout -- .", shell=True)
    json.dump(dict(property=property, needs=needs, what_it_breaks=what), open(d + "/meta.json", "w"), indent=1)
    if demo is not None:
        open(d + "/demo.c", "w").write(demo); shutil.copy(ROOT + "/tools/seedlib/mini.h", d); shutil.copy(ROOT + "/tools/seedlib/demo.sh", d)
    else: open(d + "/demo.sh", "w").write(sh)
    for n, t in files.items(): open(d + "/" + n, "w").write(t)
