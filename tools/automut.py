#!/usr/bin/env python3
"""development aid: random small mutations of a source file; which survive the checks?
   tools/automut.py [-jN] [-nN] [-rSEED] file.c=C06,C07 ...   (from a copy of the committed work: VERIF copy is where this file lies)"""
import os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
jobs, num, seed, files = 4, 30, 1, []
for a in sys.argv[1:]:
    if a.startswith("-j"): jobs = int(a[2:])
    elif a.startswith("-n"): num = int(a[2:])
    elif a.startswith("-r"): seed = int(a[2:])
    else: f, p = a.split("="); files.append((f, p.split(",")))
SKIP = re.compile(r"FLFMT|DIAG_DBG|assert|^\s*(//|\*|/\*|#)|debug|printf|case |DIAG_DATA")
def candidates(src):
    out = []; inblock = False; depth = 0; prev = ""
    lines = src.split("\n")
    for i, ln in enumerate(lines):
        code = ln
        if "/*" in code and "*/" not in code: inblock = True; continue
        if inblock:
            if "*/" in code: inblock = False
            continue
        if not ln[:1].isspace() or SKIP.search(ln): continue
        if prev.rstrip().endswith(",") and ("printf" in prev2 or "DBG" in prev2): prev = ln; continue
        body = re.sub(r"//.*|/\*.*?\*/", "", ln); s = body.strip()
        prev2 = prev; prev = ln
        if not s or s in ("{", "}", "break;") or s.startswith('"'): continue
        def put(new): out.append((i, ln, new))
        for m in re.finditer(r"(?<![<>=!\-])(<=|>=|<|>|==|!=)(?![<>=])", body):
            op = m.group(1)
            if body[m.start()-1:m.start()] == "-" : continue
            rep = {"<": "<=", "<=": "<", ">": ">=", ">=": ">", "==": "!=", "!=": "=="}[op]
            put(body[:m.start()] + rep + body[m.end():])
        for m in re.finditer(r"&&|\|\|", body): put(body[:m.start()] + ("||" if m.group() == "&&" else "&&") + body[m.end():])
        for m in re.finditer(r"(?<![\w.\"'])(0x[0-9a-fA-F]+|\d+)(?![\w.\"'])", body):
            v = int(m.group(1), 0) if not re.match(r"0\d", m.group(1)) else int(m.group(1), 8)
            if "[" in body[:m.start()] and s.startswith(("uint8_t", "char", "int ")): continue
            put(body[:m.start()] + str(v + 1) + body[m.end():])
            if v: put(body[:m.start()] + str(v - 1) + body[m.end():])
        for m in re.finditer(r"(?<=[\w\])]) ([+-]) (?=[\w(])", body): put(body[:m.start(1)] + ("-" if m.group(1) == "+" else "+") + body[m.end(1):])
        if re.match(r"^[\w>.\-\[\]*() ]+(=|\+=|-=|\|=|&=)[^=].*;$", s) and not re.match(r"^(const |unsigned |int |u?int\d+_t |char |struct |bool |size_t |uint8_t )", s): put(re.match(r"\s*", ln).group() + ";"); 
        if re.match(r"^(\(void\))?\w+\(.*\);$", s) and not s.startswith(("return", "sizeof")): put(re.match(r"\s*", ln).group() + ";")
        if s in ("continue;",) or s.startswith("goto "): put(re.match(r"\s*", ln).group() + ";")
        m = re.match(r"^(\s*(?:\} else )?if \()(.*)(\) \{)$", body)
        if m and m.group(2).count("(") == m.group(2).count(")"): put(m.group(1) + "!(" + m.group(2) + ")" + m.group(3))
    return lines, out
W = tempfile.mkdtemp(prefix="am", dir="/tmp"); q = Queue()
for j in range(jobs):
    w = W + "/r%d" % j; os.makedirs(w); subprocess.run(["cp", "-a", "/repo/scantool", w + "/scantool"], check=True); q.put((w, W + "/b%d" % j))
def one(t):
    f, props, lines, (i, old, new) = t; w, b = q.get()
    try:
        p = w + "/scantool/" + f; ls = list(lines); ls[i] = new; orig = "\n".join(lines)
        open(p, "w", encoding="latin-1").write("\n".join(ls))
        verdict = "SURVIVED"
        for pr in props:
            r = subprocess.run([sys.executable, ROOT + "/checks/run.py", pr, "quick"], env=dict(os.environ, VERIF_REPO=w, VERIF_NOMC="1", VERIF_BUILD=b, VERIF_SEED="1", VERIF_TIER="quick"), capture_output=True, text=True)
            if r.returncode == 1: verdict = "caught"; break
            if r.returncode != 0: verdict = "nobuild" if "error" in (r.stdout + r.stderr) else "ERROR"; break
        print(verdict, f, i + 1, old.strip(), "  ->  ", new.strip(), flush=True)
        open(p, "w", encoding="latin-1").write(orig)
    finally: q.put((w, b))
work = []
for f, props in files:
    src = open("/repo/scantool/" + f, encoding="latin-1").read(); lines, c = candidates(src); rng = random.Random(seed); rng.shuffle(c)
    work += [(f, props, lines, x) for x in c[:num]]
with ThreadPoolExecutor(jobs) as ex: list(ex.map(one, work))
shutil.rmtree(W)
