"""Scenarios for log files (spec/Log)."""
import re
import d_obd, d_prog
from d_prog import W, case, settings, debug, FL
NAMES = ["a.txt", "My.LOG", "b", "log.03", "log.00", "car log"]
OLD = ["", "something\n", "FREEDIAG log format 0.2\n# 0000.000 logging started at Mon Jan  1 00:00:00 2001\n> 0001.000  scan\n"]
DATE = re.compile(r"[A-Z][a-z]{2} [A-Z][a-z]{2} [ 0-9]\d \d\d:\d\d:\d\d \d{4}")
def logcmd(rng):
    r = rng.random()
    if r < .45: return case(rng, "log") + (" " + rng.choice(NAMES + NAMES + ["nodir/x", "."]) if rng.random() < .6 else "") + (" more" if rng.random() < .03 else "")
    if r < .8: return case(rng, "stoplog") + (" now" if rng.random() < .1 else "")
    if r < .9: return "date"
    if r < .95: return rng.choice(["# remark", "  # remark again", "play", "play nosuch"])
    return "play " + rng.choice(NAMES)
def scenario(rng):
    r = rng.random()
    if r < .45:                # with monitored data
        s = d_obd.session(rng, rng.choice(["monitor", "monitor", "monitor", "data"])); ops = [o for o in s["ops"] if o["op"] != "prog"]; mask = s["mask"]
        lines = bytes(s["ops"][-1]["b"]).decode().split("\n")[:-1]
        at = next((i for i, x in enumerate(lines) if x.strip().lower().startswith("scan")), 0) + 1
    else:
        w = W(rng); mask = 255; ops = ["dnew d=0 name=MOCK", "dev d=0 flags=%d mask=255" % FL]; ops = [dict(op="raw", _t=x) for x in ops]
        w.cmd("set", "interface MOCK")
        for _ in range(rng.randint(1, 8)):
            k = rng.choice(["set", "set", "debug", "diag", "", "test"])
            w.cmd(k, settings(rng) if k == "set" else debug(rng) if k == "debug" else rng.choice(["disconnect", "reml3", "sr 1 2", "sr 0x%x 2 3 4 5 6 7 8" % rng.randint(1, 255), "nosuch", "connect now", "probe 1  2 3 4"]) if k == "diag" else rng.choice(["cms", "rvi", "nosuch"]) if k == "test"
                  else rng.choice(["ecus", "pids", "monitor", "up", "nosuch thing", "lo", "stop", "logs", "ECUS", "dumpdata x   y", "pids a b c d e f g", "nosuch a b c d e"]))
        if rng.random() < .3: w.cmd("", "exit")
        lines = w.out; at = 0
    n = rng.randint(1, 8)
    if rng.random() < .7: lines.insert(rng.randint(0, at), "log" + (" " + rng.choice(NAMES) if rng.random() < .5 else ""))
    for _ in range(n): lines.insert(rng.randint(0, len(lines)), logcmd(rng))
    files = []
    for nm in ["a.txt", "b", "log.00", "log.01", "log.03"]:
        if rng.random() < .15: files.append(dict(n=nm, s=rng.choice(OLD)))
    if rng.random() < .04: files = [dict(n="log.%02d" % i, s="") for i in range(100 if rng.random() < .5 else 99)]
    # what is typed while playing back
    out = []
    for x in lines:
        out.append(x)
        if x.startswith("play "): out.append("".join(rng.choice("+-sSeEx ") for _ in range(rng.randint(0, 4))) + rng.choice("qQ") + rng.choice(["", "", "x"]))
    if out[-1].startswith("play ") is False and rng.random() < .1: out.append("play a.txt")
    elif rng.random() < .05: out.append("+-")
    pre = [dict(op="raw", _t="file n=%s b=%s" % (f["n"].replace(" ", "_"), f["s"].encode().hex())) for f in files]
    names = sorted({"log.%02d" % i for i in range(5)} | {"log.98", "log.99"} | {x for x in NAMES if " " not in x} | {"car", "more"})
    post = [dict(op="raw", _t="slurp n=" + x) for x in names]
    return dict(mask=mask, text="".join(x + "\n" for x in out), files=files, names=names, ops=pre + ops + [dict(op="prog", b=list("".join(x + "\n" for x in out).encode()))] + post)
def gen(rng, n): return [scenario(rng) for _ in range(n)]
ROW = re.compile(r"([>#D]) (\d{4}|[1-9]\d{4,})\.(\d{3}) (.*)$")
def rows(s):
    if s and not s.endswith("\n"): s += "(no end of line)\n"
    out = []
    for x in s.split("\n")[:-1]:
        m = ROW.match(x)
        if m: out.append(dict(k=m.group(1), ms=int(m.group(2)) * 1000 + int(m.group(3)), x=DATE.sub("DATE", m.group(4))))
        else: out.append(dict(k="", ms=0, x=DATE.sub("DATE", x)))
    return out
def play(base, ts, text):
    """typing while playing back is read along with the rest of its line: n keys, the remaining line"""
    ev = []; off = 0; i = 0
    while i < len(base):
        e = base[i]; i += 1
        if e["e"] == "out": e = dict(e, s=DATE.sub("DATE", e["s"]))
        if e["e"] == "line": e = dict(e, t=next(ts)); off = text.find("\n", off) + 1
        ev.append(e)
        if not (e["e"] == "line" and e["s"].strip().lower().startswith("play") and i < len(base) and base[i].get("s", "").startswith("Warning : incomplete code")): continue
        t = e["t"]; rest = text[off:]; m = re.match(r"[^qQ]*[qQ]", rest); k = len(m.group()) if m else len(rest)
        end = text.find("\n", off + k) if m else len(text)
        out = ""; read = off; eof = False            # what was read and printed meanwhile
        while i < len(base):
            b = base[i]
            if b["e"] == "out": out += b["s"]
            elif b["e"] == "line" and read < end: next(ts); read = text.find("\n", read) + 1
            elif b["e"] == "eof" and not m and not eof: eof = True
            else: break
            i += 1
        cut = out.find("freediag> ") + 10
        ev += [dict(e="play", n=k if m else k + 1), dict(e="out", s=out[:cut])]
        if m: ev.append(dict(e="line", s=text[off + k:end].rstrip("\r"), t=t)); off = end + 1
        else: off = end
        if out[cut:]: ev.append(dict(e="out", s=out[cut:]))
        if eof and not (i < len(base) and base[i]["e"] == "eof"): ev.append(dict(e="eof"))
    return ev
def trace(s, evs):
    base = d_obd.trace(s, [e for e in evs if e["e"] != "ret" or "open" in e])["ev"]
    ev = play(base, iter([e["t"] for e in evs if e["e"] == "line"]), s["text"])
    sl = [e for e in evs if e["e"] == "ret" and "s" in e]
    fin = []
    for n, e in zip(s["names"], sl):
        q = rows(e["s"]); ev.append(dict(e="file", n=n, there=e["rc"], len=len(q)))
        if e["rc"]: fin.append(dict(n=n, rows=q))
    return dict(mask=s["mask"], files=[dict(n=f["n"], rows=rows(f["s"])) for f in s["files"]], final=fin, ev=ev)
