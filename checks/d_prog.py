"""Scenarios for the whole program: settings and diagnostic sessions (spec/Prog)."""
import re
from d_iso14230 import F
FL = 3 | F["FRAME"] | F["CK"] | F["STRIP"]
L1 = {"ISO9141": 1, "ISO14230": 2, "J1850-VPW": 4, "J1850-PWM": 8, "CAN": 16, "RAW": 128}
L2 = ["ISO9141", "CAN", "ISO14230", "MB1", "RAW", "SAEJ1850", "VAG", "D2", "TEST"]
USUAL = {"ISO9141": "ISO9141", "ISO14230": "ISO14230", "SAEJ1850": "J1850-VPW", "RAW": "RAW", "VAG": "ISO9141", "MB1": "ISO9141", "D2": "ISO9141", "CAN": "CAN", "TEST": "RAW"}
FLFMT = re.compile(r"\w+\.[ch]:\d+: .*\n|\tclosing dl2link .*\n")       # messages meant for developers
def case(rng, s): return s if rng.random() < .85 else "".join(rng.choice([c.lower(), c.upper()]) for c in s)
def num(rng, v):
    if v < 0: return str(v)
    return rng.choice(["%d", "%d", "0x%x", "0X%X", "$%x", "0%o"]) % v if rng.random() < .6 else str(v)
BADNUM = ["x", "12x", "0x", "$", "-", "abc", "09", "1.5", "0xg", "--1", "99999999999", "2147483648", "$ffffffffff", "+", "1e3"]
def value(rng, lo, hi):
    """a number, mostly near a bound"""
    r = rng.random()
    if r < .15: return rng.choice(BADNUM)
    if r < .55: return num(rng, rng.choice([lo, hi, lo + 1, hi - 1, rng.randint(lo, hi)]))
    return num(rng, rng.choice([lo - 1, hi + 1, -1, 0, 256, 257, 65535, 2147483647, rng.randint(-300, 70000), rng.randint(lo, hi), rng.randint(lo, hi)]))
def settings(rng, full=False):
    """arguments of one `set` command"""
    k = rng.choice(["display", "speed", "testerid", "destaddr", "addrtype", "l1protocol", "l2protocol", "initmode", "item", "item", "show", "bad"])
    r = rng.random(); kk = case(rng, k)
    if k == "show": return kk
    if k == "bad": return rng.choice(["nosuch", "add", "addr2 5", "speedy 1", "interfac MOCK", "de"])
    if k != "item" and r < .2: return kk
    if k != "item" and r < .27: return kk + " ?"
    if k == "display": return "%s %s" % (kk, case(rng, rng.choice(["english", "metric", "english", "metric", "both", "engl"])))
    if k == "speed": return "%s %s" % (kk, value(rng, 1, 2147483647))
    if k in ("testerid", "destaddr"): return "%s %s" % (kk, value(rng, 0, 255))
    if k == "addrtype": return "%s %s" % (kk, rng.choice(["func", "functional", "phys", "physical", "fun", "PHYS", "both", "ph", "functions"]))
    if k == "l1protocol": return "%s %s" % (kk, case(rng, rng.choice(list(L1) + ["J1850", "ISO", "none"])))
    if k == "l2protocol": return "%s %s" % (kk, case(rng, rng.choice(L2 + ["J1850", "KWP", "ISO9141-2"])))
    if k == "initmode": return "%s %s" % (kk, case(rng, rng.choice(["5BAUD", "FAST", "CARB", "5 BAUD", "SLOW", "fas"])))
    k = rng.choice(["addr", "delay", "dbg", "mode", "name"]); kk = case(rng, k)
    if r < .2: return kk
    if r < .3: return kk + " ?"
    v = value(rng, 0, 255) if k == "addr" else value(rng, 0, 1) if k == "dbg" else value(rng, -400, 400) if k == "delay" else rng.choice(["fast", "x", "a/b", "12", "?x", "Quoted\"", "slow2"])
    return "%s %s" % (kk, v)
def debug(rng):
    k = rng.choice(["l0", "L1", "l2", "L3", "cli", "CLI", "all", "show", "l4"])
    if k in ("show", "l4") or rng.random() < .3: return k
    return "%s %s" % (k, rng.choice(["?", num(rng, rng.choice([0, 1, 0x80, 0x1ff, 255, 0x155, 512, 70000])), "-1" if rng.random() < .3 else "7", rng.choice(BADNUM)]))
class W:
    """one user session being written"""
    def __init__(s, rng): s.rng = rng; s.out = []; s.menu = ""
    def cmd(s, menu, text):
        """a command of a menu, given directly or from inside it"""
        rng = s.rng
        if s.menu == menu: s.put(text); return
        if s.menu: s.put(case(rng, "up")); s.menu = ""
        if menu and rng.random() < .2: s.put(case(rng, menu)); s.menu = menu; s.put(text)
        else: s.put((case(rng, menu) + rng.choice([" ", " ", "  ", "\t"]) if menu else "") + text)
    def put(s, t):
        if s.rng.random() < .03: s.out.append(s.rng.choice(["", "  ", "# note", "\t"]))
        if s.rng.random() < .05: t += " "
        s.out.append(t + ("\r" if s.rng.random() < .05 else ""))
def ecu(rng, l2, tgt):
    """mock answers: table for requests, start-up conversations"""
    ops = []; hd = "" if l2 == "RAW" else "......"
    me = rng.choice([tgt, 0x10, 0x11, 0x7a])
    def fr(b, src=me):
        if l2 == "RAW": return b
        if l2 == "ISO14230": return [0x80 + len(b), 0xf1, src] + b
        return [0x48, 0x6b, src] + b
    def bursts(ms, gap0): return ",".join("%d:%s" % (gap0 if i == 0 else rng.choice([10, 20]), "".join("%02x" % x for x in m)) for i, m in enumerate(ms)) or "-"
    if l2 == "ISO14230":
        good = rng.random() < .75
        ans = fr([0xc1, rng.choice([0xe9, 0x6b & 0xfd, 0xd1]), 0x8f], tgt) if good else rng.choice([[], fr([0x7f, 0x81, 0x10]), fr([0x41, 0, 1])])
        ops.append("tab d=0 rq=......81 x=1 r=%s" % bursts([ans] if ans else [], 30))
        if rng.random() < .7: ops.append("tab d=0 rq=......82 x=1 r=%s" % bursts([fr([0xc2])], 30))
    if rng.random() < .8:
        pid = [0x41, 0] + [rng.randrange(256) for _ in range(4)]
        n = rng.choice([1, 1, 2, 3])
        ms = [fr(pid if k or rng.random() < .8 else [0x7f, 1, 0x12], (me + k) & 255) for k in range(n)]
        ops.append("tab d=0 rq=%s0100 x=1 r=%s" % (hd, bursts(ms, rng.choice([5, 30]))))
    for sid in (0x21, 0x3e, 0x55):
        if rng.random() < .7:
            n = rng.choice([1, 1, 2, 3]) if sid != 0x55 else 1
            ms = [fr([sid + 0x40] + [rng.randrange(256) for _ in range(rng.randint(0, 6 if l2 != "ISO14230" else 20))], (me + k) & 255) for k in range(n)]
            late = sid == 0x55
            ops.append("tab d=0 rq=%s%02x r=%s" % (hd, sid, bursts(ms, rng.choice([700, 1300, 2400]) if late else rng.choice([5, 30, 45]))))
    tries = []
    for k in range(14):
        r = rng.random()
        if l2 == "ISO14230": tries.append("rc=0 keep=1 r=20:e98f" if r < .75 else "rc=0")
        elif l2 == "ISO9141": tries.append("rc=0 keep=1 r=20:0808" .replace("0808", "%s,5:%s" % (("08", "08") if r < .45 else ("94", "94"))) if r < .7 else rng.choice(["rc=0", "rc=0 keep=1 r=20:08,5:94", "rc=0 keep=1 r=20:8f,5:e9"]))
        else: tries.append("rc=0")
        if rng.random() < .05: tries[-1] = "rc=%d" % rng.choice([-1, -16, -8])
    ops += ["init d=0 " + t for t in tries]
    for kb2 in (0x08, 0x94, 0x8f):
        ops.append("tab d=0 rq=%02x x=1 r=%s" % (255 - kb2, bursts([[255 - tgt]] if rng.random() < .85 else rng.choice([[], [[tgt]]]), 25)))
    return ops
def sr(rng, l2, s):
    r = rng.random()
    if r < .06: return "sendreq"
    if r < .1: return "sr ?"
    if r < .2: return "sr " + " ".join(num(rng, rng.choice([1, 255, 256, -1, 300])) if rng.random() < .6 else rng.choice(BADNUM) for _ in range(rng.randint(1, 4)))
    b = rng.choice([[1, 0], [0x21], [0x21, 1, 2], [0x3e], [0x55, 7], [0x55]]) if s else [rng.choice([0x66, 0x21, 0x55]) for _ in range(rng.randint(1, 3))]
    return case(rng, rng.choice(["sr", "sendreq", "sr"])) + " " + " ".join(num(rng, x) for x in b)
def gen_sess(rng, n):
    out = []
    for i in range(n):
        l2 = rng.choice(["ISO9141", "ISO9141", "ISO14230", "ISO14230", "ISO14230", "SAEJ1850", "RAW"])
        tgt = rng.choice([0x33, 0x10, 0x33, rng.randint(2, 250)])
        mask = 255 if rng.random() < .8 else rng.choice([1, 3, 0x80, 4, 0xfe, 15])
        ops = ["dnew d=0 name=MOCK", "dev d=0 flags=%d mask=%d" % (FL, mask)] + ecu(rng, l2, tgt)
        if rng.random() < .15: ops += ["openrc d=0 rc=%d" % rng.choice([0, 0, -1, -7, -2]) for _ in range(4)]
        w = W(rng)
        if rng.random() < .9: w.cmd("set", case(rng, "interface") + " " + case(rng, "MOCK"))
        l1 = USUAL[l2] if l2 != "SAEJ1850" else rng.choice(["J1850-VPW", "J1850-PWM"])
        w.cmd("set", "l1protocol " + (l1 if rng.random() < .9 else rng.choice(list(L1))))
        w.cmd("set", "l2protocol " + l2)
        if l2 in ("ISO9141", "ISO14230"): w.cmd("set", "initmode " + ("5BAUD" if l2 == "ISO9141" or rng.random() < .4 else "FAST"))
        if tgt != 0x33: w.cmd("set", "destaddr " + num(rng, tgt))
        if rng.random() < .3: w.cmd("set", "testerid " + num(rng, rng.choice([0xf1, 0xf5, 0, 0x10])))
        if rng.random() < .3: w.cmd("set", "addrtype " + rng.choice(["phys", "func"]))
        if rng.random() < .3: w.cmd("set", "speed " + num(rng, rng.choice([9600, 10400, 41600])))
        same = True; left = rng.randint(2, 16); probed = False
        while left > 0:
            left -= 1; r = rng.random()
            if r < .3: w.cmd("diag", case(rng, "connect") + (" now" if rng.random() < .04 else ""))
            elif r < .52: w.cmd("diag", sr(rng, l2, same))
            elif r < .6: w.cmd("diag", rng.choice(["rx", "read", "rx 1", "rx 1", "read 2", "rx 0", "rx -1", "rx abc", "rx 3000000"]))
            elif r < .7: w.cmd("diag", "addl3 " + (rng.choice(["SAEJ1979", "saej1979", "ISO14230", "VAG", "?", "XX", "ISO14230"]) if not any(x.rstrip().upper().endswith("L2PROTOCOL RAW") for x in w.out) else rng.choice(["ISO14230", "VAG", "SAEJ"])) if rng.random() < .95 else "addl3")
            elif r < .76: w.cmd("diag", case(rng, "disconnect") + (" all" if rng.random() < .05 else ""))
            elif r < .8: w.cmd("diag", "reml3")
            elif r < .87:
                k = "probe" if l2 in ("ISO9141", "SAEJ1850", "RAW") else "fastprobe"
                if probed and l2 in ("SAEJ1850", "RAW"): continue
                if l2 in ("SAEJ1850", "RAW"): k = rng.choice(["probe", "fastprobe"]); probed = True
                a = rng.choice([tgt, max(0, tgt - 1), max(0, tgt - 2)]); b = min(255, tgt + rng.choice([0, 0, 1]))
                t = rng.choice([k, k + " ?"]) if rng.random() < .1 else "%s %s %s%s" % (k, num(rng, a), num(rng, b), rng.choice(["", " func", " phys", " FUNC"])) if rng.random() < .7 else "%s %s" % (k, num(rng, tgt)) if rng.random() < .6 else "%s %s %s" % (k, rng.choice(["5", "256", "-1", "zz", "9"]), rng.choice(["4", "300", "y", "-2", "3"]))
                w.cmd("diag", t)
            elif r < .93:
                if rng.random() < .5: w.cmd("set", rng.choice(["interface CARSIM", "interface DUMB", "interface", "testerid", "destaddr", "l2protocol", "speed 9600", "interface NONE", "interface DUMB x", "testerid 0xf5"]) if w.out else "show")
                else: w.cmd("set", "show")
                if w.out[-1].strip().endswith("CARSIM"): w.cmd("set", "interface " + rng.choice(["MOCK", "DUMB"]))
            elif r < .96: w.cmd("test", rng.choice(["readiness" if not any("ADDL3" in x.upper() for x in w.out) else "cms", "cms", "ncms 1", "rvi"])) if rng.random() < .5 else w.cmd("", rng.choice(["monitor", "ecus", "zap"]))
            elif same and rng.random() < .5:
                o = rng.choice(["TEST", "D2", "CAN", "RAW", "SAEJ1850"])
                if o != l2: w.cmd("set", "l2protocol " + o); same = False
                if same is False and rng.random() < .5: w.cmd("set", "l1protocol " + rng.choice(list(L1)))
            else: w.cmd("diag", rng.choice(["nosuch", "conn", "connec", "red"]))
        if rng.random() < .4: w.cmd("", case(rng, rng.choice(["exit", "quit"])))
        txt = "".join(x + "\n" for x in w.out)
        ops = [dict(op="raw", _t=o) for o in ops]
        out.append(dict(mask=mask, ops=ops + [dict(op="prog", b=list(txt.encode()))]))
    return out
def gen_set(rng, n):
    out = []
    for i in range(n):
        mask = 255; ops = ["dnew d=0 name=MOCK", "dev d=0 flags=%d mask=%d" % (FL, mask)]
        w = W(rng); left = rng.randint(2, 18); sim = False
        while left > 0:
            left -= 1; r = rng.random()
            if r < .2:
                c = rng.choice(["interface", "interface ?", "interface MOCK", "interface dumb", "interface CARSIM", "interface carsim", "interface xx", "interface MOCK y"])
                w.cmd("set", c); lo = c.lower()
                if lo.endswith("carsim"): sim = True
                elif lo.endswith(" mock") or lo.endswith("dumb"): sim = False
            elif r < .8:
                t = settings(rng)
                if sim and t.split()[0].lower() not in ("show", "display", "speed", "testerid", "destaddr", "addrtype", "l1protocol", "l2protocol", "initmode"): continue
                w.cmd("set", t)
            elif r < .93: w.cmd("debug", debug(rng))
            elif sim: pass
            else:
                # a session, to see that the settings are what it is made with
                w.cmd("debug", "all 0"); w.cmd("set", "l2protocol " + rng.choice(["RAW", "RAW", "SAEJ1850", "CAN", "D2", "TEST"]))
                w.cmd("diag", "connect"); w.cmd("set", "interface DUMB"); w.cmd("diag", "sr 5 6")
                if rng.random() < .8: w.cmd("diag", "disconnect")
        if rng.random() < .4: w.cmd("", rng.choice(["exit", "quit"]))
        txt = "".join(x + "\n" for x in w.out)
        out.append(dict(mask=mask, ops=[dict(op="raw", _t=o) for o in ops] + [dict(op="prog", b=list(txt.encode()))]))
    return out
def keepout(ev, s):
    s = re.sub(r"simfile=\S+", "simfile=FILE", FLFMT.sub("", s))
    if s: ev.append(dict(e="out", s=s))
def trace(s, evs):
    ev = []; on = False
    for e in evs:
        k = e["e"]
        if not on:
            if k == "out" and e["s"].endswith("freediag> "): on = True; ev.append(dict(e="started"))
            continue
        if k == "out": keepout(ev, e["s"])
        elif k == "line": ev.append(dict(e="line", s=e["s"].rstrip("\r")))
        elif k == "ret": ev.append(dict(e="over", open=e["open"], timer=e["timer"]))
        elif k == "tx":
            p = ev[-1] if ev else None
            if p and p["e"] == "tx" and p.get("one") and len(e["b"]) == 1: p["b"] = p["b"] + e["b"]
            else: ev.append(dict(e="tx", b=e["b"], rc=e["rc"], one=len(e["b"]) == 1))
        elif k in ("rx", "tcreate", "tdelete", "wm", "call"): pass
        elif k == "in" and e["err"]: ev.append(dict(e="inerr"))
        else: ev.append({a: b for a, b in e.items() if a not in ("t", "th", "d")})
    for e in ev: e.pop("one", None)
    return dict(mask=s["mask"], ev=ev)
