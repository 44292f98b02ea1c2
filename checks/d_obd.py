"""Scenarios for on-board diagnostics: scan, ECU data, trouble codes (spec/Obd)."""
import d_prog
from d_prog import FL, W, case, num
BIT = [4, 8, 2, 1, 2]                      # link protocols in the order they are tried
def bits(ps, blk):
    b = [0, 0, 0, 0]
    for p in ps:
        k = p - blk - 1
        if 0 <= k < 32: b[k // 8] |= 128 >> (k % 8)
    return b
def close(ps):
    """a set of PIDs with the block numbers leading to them"""
    s = set(ps)
    if s:
        for k in range(0x20, max(s), 0x20): s.add(k)
    return s
SPECIAL1 = [1, 0x13, 0x1c]
MON = [3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 30]
class Ecu:
    def __init__(s, rng, a, kind):
        s.rng = rng; s.a = a
        sub = lambda pool, k: set(rng.sample(pool, min(len(pool), k)))
        few = rng.choice([0, 1, 3, 5]) if kind != "monitor" else rng.choice([4, 9, 16])
        p1 = sub(MON if rng.random() < .7 else list(range(2, 0x20)), few) | {p for p in SPECIAL1 if rng.random() < .8}
        if rng.random() < .25: p1 |= sub(list(range(0x21, 0x100)), 2)
        if rng.random() < .1: p1 |= {0xff, 0xe0}
        s.inf = {1: close(p1), 2: set(), 5: set(), 6: set(), 8: set(), 9: set()}
        if rng.random() < .6: s.inf[2] = close(sub(MON, rng.choice([1, 2, 5])) | ({0x2c} if rng.random() < .2 else set()))
        if rng.random() < .5: s.inf[5] = close(sub(list(range(1, 10)), rng.choice([1, 3, 9])) | ({0x0b, 0x25} if rng.random() < .2 else set()))
        if rng.random() < .5: s.inf[6] = close(sub(list(range(1, 0x20)), rng.choice([1, 2, 4])) | ({0x21, 0xff} if rng.random() < .15 else set()))
        if rng.random() < .3: s.inf[8] = close(sub(list(range(1, 0x20)), 2))
        if rng.random() < .5: s.inf[9] = sub([1, 2, 3, 4, 5, 6, 7, 8], rng.choice([2, 5]))
        if rng.random() < .04: s.inf[1] = set(range(1, 0x21))
        s.silent = {m for m in (2, 5, 6, 8, 9) if rng.random() < .3 and not s.inf[m]}
        s.mil = rng.choice([0, 128]); s.ndtc = rng.choice([0, 0, 1, 2, 5]); s.frz = rng.random() < .5
    def by(s, n): return [s.rng.choice([0, 255, 1, 128, s.rng.randrange(256), s.rng.randrange(256)]) for _ in range(n)]
    def info(s, m, blk):
        if m in s.silent or (blk and blk not in s.inf[m]): return None
        return [m + 0x40, blk] + ([] if m in (1, 8) else [0]) + bits(s.inf[m], blk)
    def dtcs(s, sid, n):
        out = []; rng = s.rng
        codes = [s.code() for _ in range(n)]
        while codes:
            k = codes[:3]; codes = codes[3:]
            m = [sid] + [x for c in k for x in c] + [0, 0] * (3 - len(k))
            if rng.random() < .1: m = m[:rng.randint(1, 7)]
            out.append(m)
        if not out and rng.random() < .7: out = [[sid] + [0] * 6]
        return out
    def code(s):
        r = s.rng.random()
        if r < .15: return [0, 0]
        if r < .3: return [s.rng.choice([0, 1, 0x40, 0x80, 0xc0, 0xff]), s.rng.choice([0, 1, 0xff])]
        return [s.rng.randrange(256), s.rng.randrange(256)]
    def pid1(s, p):
        rng = s.rng
        if p not in s.inf[1]: return None
        if p == 1: return [0x41, 1, s.mil | s.ndtc, rng.choice([0, 7, 0x77, 0x11, 0x70, rng.randrange(256)]), rng.choice([0, 0x20, 0x21, 0xff, rng.randrange(256)]), rng.choice([0, 0, 1, rng.randrange(256)])]
        if p == 0x13: return [0x41, 0x13, rng.choice([1, 2, 3, 0x11, 0x33, 0x80, 0, rng.randrange(256)])]
        if p == 0x1c: return [0x41, 0x1c, rng.choice([1, 2, 3, 4, 5, 6, 0, 7, 255])]
        return [0x41, p] + s.by(rng.choice([1, 1, 2, 2, 4, 5, 3, 0]))
    def pid2(s, p):
        if p == 2: return [0x42, 2, 0] + (s.code() if s.frz else [0, 0])
        if p not in s.inf[2]: return None
        return [0x42, p, 0] + s.by(s.rng.choice([1, 2, 2, 4, 3]))
    def o2(s, t):
        if t not in s.inf[5]: return None
        return [0x45, t, s.rng.choice([1, 2, 0])] + (s.by(1) if t <= 4 and s.rng.random() < .7 else sorted(s.by(2)) + s.by(1) if s.rng.random() < .5 else s.by(3))
    def ncms(s, t, big):
        if t not in s.inf[6]: return None
        h = lambda: s.rng.randrange(1, 256) if big else 0
        v = s.rng.randrange(256)
        return [[0x46, t, s.rng.choice([1, 0x81, 2, 0x85, 0xff, 0x7f]), h(), v, h(), s.rng.choice([v, min(255, v + 1), max(0, v - 1), s.rng.randrange(256)])] for _ in range(s.rng.choice([1, 1, 2]))]
    def vit(s, t):
        if t not in s.inf[9]: return None
        n = {2: 5, 4: 4, 6: 1}.get(t, 1)
        if s.rng.random() < .2: n = s.rng.randint(1, 6)
        tx = b"\0\0\0WVWZZZ1KZ6W123456" if t == 2 else b"37805-RBA-9910\0\0"
        tx = list(tx) + [0 if s.rng.random() < .2 else s.rng.randint(32, 126) for _ in range(12)]
        if t == 6: tx = s.by(24)
        return [[0x49, t, k + 1] + tx[4 * k:4 * k + 4] for k in range(n)]
def spoil(rng, m, keep7):
    """an answer that is not what was asked for"""
    r = rng.random()
    if r < .35: return [0x7f, m[0] - 0x40 & 255, rng.choice([0x10, 0x11, 0x12, 0x22])] if not keep7 else None
    if r < .5: return None
    if r < .65: return m[:rng.randint(1, len(m))] if not keep7 else m
    if r < .8: return [m[0]] + [rng.choice([(m[1] + 1) & 255, 0, 0x20])] + m[2:] if len(m) > 1 else m
    if r < .9: return [rng.choice([0x41, 0x42, 0x46, 0x45, 0x47, 0x50, m[0]])] + m[1:] if not keep7 else m
    return m + [rng.randrange(256) for _ in range(rng.randint(1, 4))]
def vehicle(rng, proto, n, kind, badp, big=False):
    """(request pattern, list of (address, payload)) for everything the vehicle answers"""
    ads = rng.sample([a for a in range(256) if a not in (0xf1, 0xf5)], n)
    if rng.random() < .5: ads[0] = 0x10 if 0x10 not in ads else ads[0]
    es = [Ecu(rng, a, kind) for a in ads]
    t = []
    def put(rq, f, x=True, keep7=False, times=1):
        turns = []
        for k in range(times):
            ms = []
            for e in es:
                r = f(e)
                if r is None or r == []: continue
                rs = r if isinstance(r[0], list) else [r]
                for m in rs:
                    if rng.random() < badp: m = spoil(rng, m, keep7)
                    if m: ms.append((e.a, m))
            if rng.random() < .25: rng.shuffle(ms)
            if rng.random() < badp / 4: ms.append((rng.randrange(256), [rng.choice([0x41, 0x7f, 0x43]), 1, 2, 3, 4, 5, 6]))
            turns.append(ms[:12])
        q = rng.random()
        if q < badp / 2: turns = [[]] + turns                     # answered at the second attempt
        elif q < badp * .7: turns = turns + [[], []]              # falls silent
        elif q < badp * .8: turns = [[], []] + turns              # one request lost altogether
        t.append((rq, turns))
    for m, tail in ((1, ""), (2, "00"), (5, "00"), (6, ""), (8, "0000000000"), (9, "")):
        for blk in range(0, 256, 32):
            if blk == 0 or any(blk in e.inf[m] for e in es): put("%02x%02x%s" % (m, blk, tail), lambda e: e.info(m, blk), keep7=(m == 9))
    for p in range(1, 256):
        if p % 32 == 0: continue
        if any(p in e.inf[1] for e in es): put("01%02x" % p, lambda e: e.pid1(p), times=1 if p in (1, 0x13) or kind != "monitor" else rng.choice([1, 2, 3]))
        if p == 2 or any(p in e.inf[2] for e in es): put("02%02x00" % p, lambda e: e.pid2(p))
        if p < 32 and any(p in e.inf[5] for e in es): put("05%02x" % p, lambda e: e.o2(p))
        if any(p in e.inf[6] for e in es): put("06%02x" % p, lambda e: e.ncms(p, big))
    for k in (2, 4, 6):
        if any(k in e.inf[9] for e in es): put("09%02x" % k, lambda e: e.vit(k), keep7=True)
    put("03", lambda e: e.dtcs(0x43, e.ndtc + rng.choice([0, 0, 1])))
    put("07", lambda e: e.dtcs(0x47, rng.choice([0, 0, 1, 4])) if rng.random() < .8 else None)
    put("04", lambda e: rng.choice([[0x44], [0x44], [0x44], [0x7f, 4, 0x22]]) if rng.random() < .9 else None)
    return es, t
def frame(proto, a, m):
    if proto in (2, 4): return [0x80 + len(m), 0xf1, a] + m
    return [0x48, 0x6b, a] + m
def bursts(rng, ms):
    return ",".join("%d:%s" % (rng.choice([5, 30, 45]) if i == 0 else rng.choice([10, 20]), "".join("%02x" % x for x in m)) for i, m in enumerate(ms)) or "-"
def search(rng, mask, proto, tgt, faults):
    """what happens on each protocol until `proto` (None: on all) is reached: mock ops, turns of the probe"""
    ops = []; probe = []; inits = []; opens = []
    for i in range(5):
        if not mask & BIT[i]: continue
        right = i == proto
        if faults and rng.random() < .12 and not right: opens.append(rng.choice([-1, -7, -2, -5])); continue
        opens.append(0)
        l2 = right or (i < 2) or rng.random() < .35           # the link comes up
        brk = rng.random()
        if i == 2:
            inits.append("rc=0" if l2 or brk < .7 else "rc=%d" % rng.choice([-1, -16, -8]))
            if inits[-1] == "rc=0": ops.append(("81", [frame(2, tgt, [0xc1, rng.choice([0xe9, 0xd1]), 0x8f])] if l2 else rng.choice([[], [frame(2, tgt, [0x7f, 0x81, 0x10])]])))
        if i == 3: inits.append("rc=0 keep=1 r=20:08,5:08" if l2 else rng.choice(["rc=0", "rc=0 keep=1 r=20:08,5:94", "rc=0 keep=1 r=20:8f,5:e9", "rc=-1"]))
        if i == 4: inits.append("rc=0 keep=1 r=20:e98f" if l2 else rng.choice(["rc=0", "rc=-16", "rc=0 keep=1 r=20:0808"]))
        if l2 and not right: probe.append([] if rng.random() < .8 else [frame(i, 0x10, [0x7f, 1, 0x12])])
        if right: break
    o = []
    st = [b for k, b in ops if k == "81"]
    if st or mask & 2: o.append("tab d=0 rq=......81 x=1 r=%s" % "|".join(bursts(rng, b) for b in st or [[]]))
    if rng.random() < .7: o.append("tab d=0 rq=......82 x=1 r=%s" % bursts(rng, [frame(2, tgt, [0xc2])]))
    o += ["init d=0 " + x for x in inits]
    if any(opens): o += ["openrc d=0 rc=%d" % x for x in opens]
    o.append("tab d=0 rq=f7 x=1 r=%s" % bursts(rng, [[255 - tgt]]))
    o.append("tab d=0 rq=70 x=1 r=%s" % bursts(rng, [[255 - tgt]]))
    return o, probe
def cmds(rng, w, kind):
    r = rng.random()
    if kind == "find": k = rng.choice(["ecus", "ecus", "readiness", "monitor", "show"])
    elif kind == "dtc": k = rng.choice(["cms", "ncms", "cleardtc", "cleardtc", "cleardtc", "dumpdata"])
    elif kind == "monitor": k = rng.choice(["monitor", "monitor", "monitor", "dumpdata", "display"])
    else: k = rng.choice(["ecus", "pids", "pids", "dumpdata", "dumpdata", "readiness", "readiness", "rvi", "rvi", "cms", "ncms", "cleardtc", "monitor", "display"])
    if k in ("ecus", "pids", "dumpdata"): w.cmd("", case(rng, k) + (" 1" if r < .05 else ""))
    elif k in ("readiness", "rvi", "cms", "ncms"): w.cmd("test", case(rng, k))
    elif k == "show": w.cmd("set", "show")
    elif k == "display": w.cmd("set", "display " + rng.choice(["english", "metric"]))
    elif k == "monitor": w.cmd("", case(rng, "monitor") + rng.choice(["", "", " english", " metric", " METRIC", " ?", " imperial", " english x"]))
    else:
        w.cmd("", case(rng, "cleardtc")); w.out.append(rng.choice(["y", "yes", "Y", "YES", "n", "no", "", "yep", "ye", "y ", " y", "q", "yes please"]))
def session(rng, kind):
    find = kind == "find"
    tgt = 0x33 if rng.random() < .8 else rng.randint(2, 250)
    mask = rng.choice([255, 255, 15, 4, 8, 2, 1, 3, 0xf3, 10, 0]) if find else rng.choice([4, 8, 1, 2, 2, 255])
    cand = [i for i in range(5) if mask & BIT[i]]
    proto = rng.choice(cand) if cand and (not find or rng.random() < .75) else None
    n = rng.choice([1, 1, 2, 2, 3, 4]) if rng.random() < .85 else rng.randint(5, 10)
    if kind == "monitor": n = rng.choice([1, 1, 2])
    w = W(rng)
    if rng.random() < .95: w.cmd("set", "interface MOCK")
    if tgt != 0x33: w.cmd("set", "destaddr " + num(rng, tgt))
    if rng.random() < .2: w.cmd("set", "testerid " + num(rng, rng.choice([0xf1, 0xf5, 0x10])))
    if rng.random() < .3: w.cmd("set", "addrtype " + rng.choice(["phys", "func"]))
    if rng.random() < .2: w.cmd("set", "speed " + num(rng, rng.choice([9600, 10400])))
    if rng.random() < .3: w.cmd("set", "display " + rng.choice(["english", "metric"]))
    if rng.random() < .1: w.cmd("", "ecus"); w.cmd("test", "rvi")
    o, probe = search(rng, mask, proto, tgt, find)
    tabs = []
    if proto is not None:
        es, t = vehicle(rng, proto, n, kind, rng.choice([0, 0, .05, .12, .3]))
        for rq, turns in t:
            fr = [[frame(proto, a, m) for a, m in ms] for ms in turns]
            if rq == "0100":
                ok = [[frame(proto, e.a, e.info(1, 0)) for e in es][:12]]
                if kind != "find" and rng.random() < .9 and ok[0] and any(m[3:4] == [0x41] for m in fr[0]): ok = [fr[0]]
                elif not find or rng.random() < .7: pass
                else: ok = [rng.choice([[], [frame(proto, es[0].a, [0x7f, 1, 0x12])]])]
                fr = probe + ok + fr
            tabs.append("tab d=0 rq=......%s x=1 r=%s" % (rq, "|".join(bursts(rng, x) for x in fr)))
    elif probe: tabs.append("tab d=0 rq=......0100 x=1 r=%s" % "|".join(bursts(rng, x) for x in probe + [[]]))
    w.cmd("", case(rng, "scan") + (" now" if rng.random() < .03 else ""))
    left = rng.randint(1, 8) if kind != "find" else rng.randint(0, 5)
    for _ in range(left):
        r = rng.random()
        if r < .06: w.cmd("", "scan")
        elif r < .12:
            if rng.random() < .6: w.cmd("diag", "disconnect")
            else: w.cmd("diag", "reml3"); w.cmd("diag", "addl3 SAEJ1979")
            if rng.random() < .3: cmds(rng, w, kind)
            if rng.random() < .8: w.cmd("", "scan")
        else: cmds(rng, w, kind)
    if rng.random() < .3: w.cmd("", rng.choice(["exit", "quit"]))
    nz = rng.choice([0, 1, 2, 3, 5, 8, 20]) if kind != "monitor" else rng.choice([3, 8, 15, 30, 60])
    if proto is not None and any(e.frz for e in es) and rng.random() < .4: nz += rng.randint(0, 254)
    keys = "00" + "0" * nz + "1"
    if rng.random() < .3: keys = rng.choice(["1", "01", "001", "0"]) + keys
    txt = "".join(x + "\n" for x in w.out)
    ops = ["dnew d=0 name=MOCK", "dev d=0 flags=%d mask=%d" % (FL, mask)] + o + tabs + ["keys r=" + keys]
    return dict(mask=mask, ops=[dict(op="raw", _t=x) for x in ops] + [dict(op="prog", b=list(txt.encode()))])
def gen(rng, n, kinds): return [session(rng, rng.choice(kinds)) for _ in range(n)]
def ncms_big(rng):
    """test limits above 255 (known finding)"""
    b = "49:486b10460101"
    ops = ["dnew d=0 name=MOCK", "dev d=0 flags=%d mask=4" % FL,
           "tab d=0 rq=......0100 x=1 r=30:486b1041004000000000", "tab d=0 rq=......0600 x=1 r=30:486b1046000080000000", "tab d=0 rq=......0601 x=1 r=30:486b1046010102000300", "keys r=0"]
    return dict(mask=4, key="ncms-scale", ops=[dict(op="raw", _t=x) for x in ops] + [dict(op="prog", b=list(b"set interface MOCK\nscan\ntest ncms\nexit\n"))])
def trace(s, evs):
    ev = []; on = False
    for e in evs:
        k = e["e"]
        if not on:
            if k == "out" and e["s"].endswith("freediag> "): on = True; ev.append(dict(e="started"))
            continue
        if k == "out": d_prog.keepout(ev, e["s"])
        elif k == "line": ev.append(dict(e="line", s=e["s"].rstrip("\r")))
        elif k == "ret": ev.append(dict(e="over", open=e["open"], timer=e["timer"]))
        elif k == "tx":
            p = ev[-1] if ev else None
            if p and p["e"] == "tx" and p.get("one") and len(e["b"]) == 1: p["b"] = p["b"] + e["b"]
            else: ev.append(dict(e="tx", b=e["b"], rc=e["rc"], t=e["t"], one=len(e["b"]) == 1))
        elif k == "key":
            if e["v"]: ev.append(dict(e="key"))
        elif k in ("rx", "tcreate", "tdelete", "wm", "call"): pass
        elif k == "in" and e["err"]: ev.append(dict(e="inerr"))
        else: ev.append({a: b for a, b in e.items() if a not in ("t", "th", "d")})
    for e in ev: e.pop("one", None)
    return dict(mask=s["mask"], ev=ev)
