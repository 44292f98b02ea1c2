"""Common machinery of the checks: run scenarios on the real code, validate the
recorded traces against the TLA+ specifications with TLC, write evidence."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import hbuild
ROOT = hbuild.ROOT
SPEC = os.path.join(ROOT, "spec")
OUT = os.path.join(ROOT, "build", "out")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
class CheckError(Exception): pass
NPROC = 8
EVALERR = []
UNCHECKED = []

def seed(): return int(os.environ.get("VERIF_SEED", "1"))
def tier(): return os.environ.get("VERIF_TIER", "quick")

# ---------------------------------------------------------------- scenarios
def hx(b): return "".join("%02x" % x for x in b)
def turn(bursts):
    """bursts: list of (gap_ms, bytes | 'E-8')"""
    if not bursts: return "-"
    return ",".join("%d:%s" % (g, b if isinstance(b, str) else hx(b)) for g, b in bursts)
def render(op):
    if op["op"] == "raw": return op["_t"]
    s = op["op"]
    for k, v in op.items():
        if k == "op" or k.startswith("_"): continue
        if k == "b" or k == "rq" and isinstance(v, (list, tuple)): v = hx(v)
        elif k == "r" and isinstance(v, list):
            if v and isinstance(v[0], list): v = "|".join(turn(t) for t in v)
            else: v = turn(v)
        if v is None: continue
        if isinstance(v, str) and v == "": continue
        s += " %s=%s" % (k, v)
    return s
def run_chunk(binp, scens, tag, d):
    sf, tf, ef = ["%s/%s.%s" % (d, tag, x) for x in ("scn", "trc", "err")]
    with open(sf, "w") as f:
        for s in scens:
            f.write("S %d\n" % s["id"])
            for o in s["ops"]: f.write(render(o) + "\n")
            f.write("E\n")
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0")
    r = subprocess.run([binp, sf, tf, ef], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=1500)
    if r.returncode != 0: raise CheckError("harness exited with %d on %s" % (r.returncode, sf))
    out = {}; cur = None
    for ln in open(tf, errors="replace"):
        try: e = json.loads(ln)
        except ValueError: raise CheckError("bad trace line: " + ln[:200])
        if e["e"] == "begin": cur = []; out[e["id"]] = cur
        elif e["e"] == "end": cur = None
        elif cur is not None: cur.append(e)
    return out
def run_scenarios(scens, variant="vh", keep=None):
    """execute scenarios (dict id, ops) on the real code -> {id: [events]}"""
    binp = hbuild.build(variant)
    os.makedirs(OUT, exist_ok=True)
    d = tempfile.mkdtemp(prefix="run", dir=OUT)
    n = max(1, min(NPROC, len(scens)))
    chunks = [scens[i::n] for i in range(n)]
    res = {}
    try:
        with ThreadPoolExecutor(n) as ex:
            for o in ex.map(lambda a: run_chunk(binp, a[1], "c%d" % a[0], d), list(enumerate(chunks))): res.update(o)
    finally:
        if not keep: shutil.rmtree(d, ignore_errors=True)
    for s in scens:
        if s["id"] not in res: raise CheckError("no trace for scenario %d" % s["id"])
    return res

def calls(scen):
    """ops that produce call events, by op index"""
    return {i: o for i, o in enumerate(scen["ops"])}
def clean(o, defaults):
    r = dict(defaults)
    for k, v in o.items():
        if k.startswith("_"): continue
        if k == "b": v = list(v)
        r[k] = v
    return r
def norm(scen, evs, callkeys, keep=("in", "ib", "speed", "wm", "ret", "tx", "call", "l0open", "l0close"), merge_tx=20, drop=()):
    """normalise a raw trace: attach the call record, merge byte-wise
    transmissions, fold callbacks into the result, drop raw receive events"""
    out = []; cbs = []
    for e in evs:
        k = e["e"]
        if k == "call":
            o = scen["ops"][e["i"]]
            out.append({"e": "call", "t": e["t"], "c": clean(o, callkeys)}); cbs = []
        elif k == "cb": cbs.append({"h": e["h"], "m": e["m"]})
        elif k == "tx":
            p = out[-1] if out else None
            if merge_tx and p and p["e"] == "tx" and p["rc"] == 0 and e["t"] - p["tend"] <= merge_tx and len(e["b"]) == 1 and p.get("_one") and e["rc"] == 0:
                p["b"] = p["b"] + e["b"]; p["tend"] = e["t"]
            else: out.append({"e": "tx", "t": e["t"], "tend": e["t"], "rc": e["rc"], "b": e["b"], "d": e["d"], "th": e.get("th", 0), "_one": len(e["b"]) == 1})
        elif k == "ret": out.append(dict(e, cbs=cbs)); cbs = []
        elif k in keep or k in ("crash", "hang", "livelock", "badop"): out.append(e)
    for e in out: e.pop("_one", None)
    if any(e["e"] == "badop" for e in out): raise CheckError("harness does not know an op: %r" % [e for e in out if e["e"] == "badop"])
    return [e for e in out if e["e"] not in drop]

# ---------------------------------------------------------------------- TLC
def _tlc(args, env=None, timeout=850, heap="6g"):
    d = tempfile.mkdtemp(prefix="tlc", dir=OUT)
    e = dict(os.environ); e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-cp", JARS, "tlc2.TLC", "-metadir", d, "-noGenerateSpecTE"] + args
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    finally: shutil.rmtree(d, ignore_errors=True)
    return r.returncode, r.stdout + r.stderr
def counts(txt):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", txt)
    if not m: return 0, 0
    g, dn = m[-1]
    return int(dn.replace(",", "")), int(g.replace(",", ""))
def tlc_mc(module, cfg=None, workers=8, timeout=800, extra=()):
    """exhaustive model check; a failure here is a fault of the specification"""
    os.makedirs(OUT, exist_ok=True)
    rc, txt = _tlc(["-workers", str(workers), "-config", (cfg or module) + ".cfg"] + list(extra) + [module + ".tla"], timeout=timeout)
    if rc != 0 or "Model checking completed. No error" not in txt:
        raise CheckError("TLC found the specification itself inconsistent (%s):\n%s" % (module, txt[-3000:]))
    dn, g = counts(txt)
    return dict(module=module, states=dn, transitions=g)
def tlc_sim(module, cfg, num, depth, sd, timeout=600, env=None):
    """random behaviours of the specification; each finished behaviour prints BEHAVIOUR <json>"""
    os.makedirs(OUT, exist_ok=True)
    rc, txt = _tlc(["-workers", "1", "-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(sd), "-config", cfg + ".cfg", module + ".tla"], timeout=timeout, env=env)
    res = []
    for ln in txt.splitlines():
        m = re.match(r'^<<"BEHAVIOUR", "(.*)">>$', ln)
        if m: res.append(json.loads(m.group(1).encode().decode("unicode_escape")))
    if not res: raise CheckError("no behaviours from %s:\n%s" % (module, txt[-3000:]))
    return res
def tlc_gen(module, outname="gen", env=None, timeout=600):
    """evaluate a module whose ASSUME serialises scenarios to the file IOEnv.GEN"""
    os.makedirs(OUT, exist_ok=True)
    f = tempfile.mktemp(prefix=outname, suffix=".json", dir=OUT)
    e = {"GEN": f}; e.update(env or {})
    rc, txt = _tlc(["-config", "Gen.cfg", module + ".tla"], env=e, timeout=timeout)
    if not os.path.exists(f): raise CheckError("generator %s failed:\n%s" % (module, txt[-3000:]))
    data = [json.loads(x) for x in open(f) if x.strip()]
    os.unlink(f)
    return data
def tlc_trace(module, traces, env=None, timeout=800, debug=False):
    """traces: list of {id, ev, ...}; returns (rejected {id: index of the first
    unexplained event}, states, transitions)"""
    os.makedirs(OUT, exist_ok=True)
    rej = {}; st = tn = 0
    n = max(1, min(NPROC, len(traces) // 150))
    chunks = [traces[i::n] for i in range(n)]
    def one(ch):
        """a trace on which TLC cannot even evaluate the specification (an event of
        a shape no action allows) is rejected at that event; the rest is redone"""
        ch = list(ch); r = {}; a = b = 0
        for attempt in range(12):
            if not ch: break
            f = tempfile.mktemp(prefix="tr", suffix=".ndjson", dir=OUT)
            with open(f, "w") as fh:
                for t in ch: fh.write(json.dumps(t) + "\n")
            e = {"TRACES": f}; e.update(env or {})
            rc, txt = _tlc(["-workers", "1", "-config", ("TraceDebug" if debug else "Trace") + ".cfg", module + ".tla"], env=e, timeout=timeout, heap="3g")
            os.unlink(f)
            if debug: print(txt)
            if rc == 0 and "Model checking completed. No error" in txt:
                for i, p in re.findall(r'<<"REJECT", (\d+), (\d+)>>', txt): r[int(i)] = int(p)
                x, y = counts(txt)
                return r, a + x, b + y
            trs = re.findall(r"^/\\ tr = (\d+)", txt, re.M); ls = re.findall(r"^/\\ l = (\d+)", txt, re.M)
            if not trs or not ls or "The error occurred when TLC was evaluating" not in txt:
                raise CheckError("TLC failed on %s:\n%s" % (module, txt[:1500] + "\n...\n" + txt[-2500:]))
            bad = ch.pop(int(trs[-1]) - 1); r[bad["id"]] = int(ls[-1])
            EVALERR.append((module, bad["id"], txt[txt.find("Error:"):][:900]))
            if len(EVALERR) == 1 and os.environ.get("VERIF_DEBUG"): print(EVALERR[-1][2])
        UNCHECKED.extend(t["id"] for t in ch)      # too many to sort out one by one
        return r, a, b
    with ThreadPoolExecutor(n) as ex:
        for r, a, b in ex.map(one, chunks): rej.update(r); st += a; tn += b
    return rej, st, tn

# ------------------------------------------------------------------ findings
def load_findings():
    p = os.path.join(ROOT, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            m = re.match(r"^finding: property=(\S+) key=(\S+) (.*)$", ln)
            if m: out.append(m.groups())
    return out

class Check:
    """one property's check"""
    def __init__(self, prop, level="model_checking"):
        self.prop = prop; self.level = level; self.t0 = time.time()
        self.states = self.trans = self.validated = 0
        self.samples = []; self.extra = {}; self.viol = []; self.known = []; self.assumptions = []
        self.rng = random.Random(seed() * 1000003 + sum(map(ord, prop)))
        self.quick = tier() != "thorough"
        self.findings = [f for f in load_findings() if f[0] == prop]
        self.nsc = 0; self.distinct = set()
    def mc(self, module, cfg=None, **kw):
        if os.environ.get("VERIF_NOMC"): return
        r = tlc_mc(module, cfg, **kw)
        self.states += r["states"]; self.trans += r["transitions"]
        self.extra.setdefault("model_checked", []).append(r)
    def behaviours(self, module, cfg, num, depth=40):
        """distinct behaviours generated by TLC from the specification"""
        seen = {}
        for b in tlc_sim(module, cfg, num, depth, seed()): seen[json.dumps(b, sort_keys=True)] = b
        self.extra["behaviours_generated"] = self.extra.get("behaviours_generated", 0) + len(seen)
        return list(seen.values())
    def validate(self, module, scens, tracefn, variant="vh", key=None, env=None):
        """run scenarios, validate; repeat rejected ones before reporting"""
        for i, s in enumerate(scens): s["id"] = i + 1
        raw = run_scenarios(scens, variant)
        byid = {s["id"]: s for s in scens}
        def mk(s, evs):
            t = tracefn(s, evs); t["id"] = s["id"]
            for e in evs:          # these end every trace, whatever a domain keeps of it
                if e["e"] == "badop": raise CheckError("harness does not know an op: %r" % e)
                if e["e"] in ("crash", "hang", "livelock") and not any(x["e"] == e["e"] for x in t["ev"]): t["ev"].append(e)
            return t
        traces = [mk(s, raw[s["id"]]) for s in scens]
        del UNCHECKED[:]
        rej, st, tn = tlc_trace(module, traces, env); skipped = len(UNCHECKED)
        if skipped: self.extra["not_examined_after_rejections"] = skipped
        self.states += st; self.trans += tn; self.nsc += len(scens)
        for t in traces: self.distinct.add(json.dumps(t["ev"]))
        nacc = len(traces) - len(rej) - skipped
        self.extra.setdefault("traces", []).append(dict(module=module, traces=len(traces), accepted=nacc, trace_states=st))
        if rej:
            # a rejection counts only if a re-run repeats it (real threads are involved in some scenarios)
            left = set(rej); tries = 0
            while left and tries < 6:
                tries += 1
                again = [byid[i] for i in sorted(left)]
                raw2 = run_scenarios(again, variant)
                tr2 = [mk(s, raw2[s["id"]]) for s in again]
                rej2, _, _ = tlc_trace(module, tr2, env)
                t2 = {t["id"]: t for t in tr2}
                for i in sorted(rej2):
                    k = byid[i].get("key", "")
                    hit = [f for f in self.findings if f[1] == k and k]
                    if hit: self.known.append((k, hit[0][2]))
                    else: self.viol.append(dict(module=module, scenario=byid[i], trace=t2[i], at=rej2[i]))
                left -= set(rej2)
                if self.viol: break
            if left and not self.viol: self.extra["unrepeated_rejections"] = len(left); print("note: %d rejections not repeated in %d re-runs" % (len(left), tries))
        self.validated += nacc
        for t in traces[:: max(1, len(traces) // 2)][:2]: self.samples.append(dict(module=module, id=t["id"], trace=t["ev"][:12]))
        return rej
    def finish(self):
        ev = dict(property=self.prop, tier="quick" if self.quick else "thorough", seed=seed(), level=self.level,
            coverage=dict(states=self.states, transitions=self.trans, traces_validated_against_impl=self.validated,
                evaluations=self.nsc, distinct_nontrivial=len(self.distinct),
                rule="a case is one scenario executed on the real code; distinct = distinct recorded event sequences",
                samples=self.samples[:4] or ["none"], **self.extra),
            assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w"), indent=1)
        for k, txt in sorted(set(self.known)): print("KNOWN-FINDING: property=%s %s" % (self.prop, txt))
        if self.viol:
            d = os.path.join(OUT, "replay"); os.makedirs(d, exist_ok=True)
            v = min(self.viol, key=lambda v: len(v["trace"]["ev"]))
            p = os.path.join(d, "%s.json" % self.prop)
            json.dump(dict(first=v, others=len(self.viol) - 1), open(p, "w"), indent=1)
            at = v["at"]; evs = v["trace"]["ev"]
            print("rejected by %s at event %d of scenario %d: %s" % (v["module"], at, v["scenario"]["id"], json.dumps(evs[at - 1] if 0 < at <= len(evs) else None)[:600]))
            print("scenario: " + "; ".join(render(o) for o in v["scenario"]["ops"])[:1500])
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            return 1
        print("OK property=%s scenarios=%d traces=%d states=%d wall=%.1fs" % (self.prop, self.nsc, self.validated, self.states, time.time() - self.t0))
        return 0
