#!/usr/bin/env python3
"""development aid: apply small source mutations to a scratch copy and see which checks notice
   tools/mut.py [-jN] [-sK] [property...]  (mutations in tools/mutants.txt; K: skip the first K)"""
import os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
jobs, skip, want = 1, 0, []
for a in sys.argv[1:]:
    if a.startswith("-j"): jobs = int(a[2:])
    elif a.startswith("-s"): skip = int(a[2:])
    else: want.append(a)
def load():
    for blk in open(os.path.join(ROOT, "tools", "mutants.txt")).read().split("\n%%%% ")[1:]:
        hd, body = blk.split("\n", 1)
        props, f = hd.split()[:2]
        old, _, new = body.partition("\n===="); yield props.split(","), f, old.strip("\n"), new.strip("\n")
shutil.rmtree("/tmp/vmut", ignore_errors=True)
q = Queue()
for j in range(jobs):
    w = "/tmp/vmut/repo%d" % j; os.makedirs(w); subprocess.run(["cp", "-a", "/repo/scantool", w + "/scantool"], check=True); q.put(w)
def one(m):
    props, f, old, new = m; w = q.get()
    try:
        p = w + "/scantool/" + f; src = open(p, encoding="latin-1").read()
        if src.count(old) < 1: print("?? not found", f, repr(old)); return
        open(p, "w", encoding="latin-1").write(src.replace(old, new, 1))
        for pr in props:
            if want and pr not in want: continue
            r = subprocess.run([sys.executable, ROOT + "/checks/run.py", pr], env=dict(os.environ, VERIF_REPO=w, VERIF_NOMC="1", VERIF_BUILD="/tmp/vmut/build" + w[-1]), capture_output=True, text=True)
            print({0: "MISSED", 1: "caught", 2: "ERROR "}.get(r.returncode, r.returncode), pr, f, repr(old.strip()[:60]), "->", repr(new.strip()[:60]), flush=True)
            if r.returncode not in (0, 1): print(r.stdout[-1500:], r.stderr[-800:])
        open(p, "w", encoding="latin-1").write(src)
    finally: q.put(w)
ms = [m for m in load() if not want or set(want) & set(m[0])][skip:]
with ThreadPoolExecutor(jobs) as ex: list(ex.map(one, ms))
shutil.rmtree("/tmp/vmut")
