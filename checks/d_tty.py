"""Scenarios for the serial port layer on a fake device (spec/Tty): C37."""
import re
from vlib import CheckError
CALL = dict(op="other", n="", v=0, db=8, sb=1, par=3, dtr=0, rts=0, b=[], w=100, ms=0, base=0, ls=[], nomem=0)
KNOWN = ("fdev", "ffail", "fwr", "frd", "fsel", "frx", "fls", "yopen", "yset", "yctl", "ywrite", "yread", "yflush", "ybrk", "yfbrk", "yclose", "yports", "live")
def trace(s, evs):
    out = []
    for e in evs:
        if e["e"] == "call":
            o = s["ops"][e["i"]]; c = dict(CALL, **{k: v for k, v in o.items() if k in CALL})
            if o["op"] not in KNOWN: c["op"] = "other"
            p = s["ops"][e["i"] - 1] if e["i"] else {}
            c["nomem"] = int(p.get("op") == "failat" and p["n"] > 0)
            if o["op"] == "fls": c["ls"] = [dict(d=o["d"], k=x[-1], p=re.match("[a-z]*[A-Z]*", x).group(0), path="/dev/%s%s" % ("usb/" if o["d"] else "", x[:-2])) for x in o["r"].split(",")]
            out.append(dict(e="call", u=e["u"], c=c))
        elif e["e"] == "badop": raise CheckError("harness does not know an op")
        elif e["e"] not in ("tcreate",): out.append(e)
    return dict(ev=out)
def bts(rng, n): return [rng.choice([0, 0xff, 10, 13, 0x11, 0x13, rng.randrange(256)]) for _ in range(n)]
def frx(rng, n, start=None):
    out = []
    while n > 0:
        k = min(n, rng.choice([1, 1, 2, 3, 8])); out.append("%d:%s" % (rng.choice([0, 300, 1000, 5000, 20000, 29000, 31000, 60000, 100000]) if start is None or out else start, bytes(bts(rng, k)).hex())); n -= k
    return dict(op="frx", r=",".join(out))
def acts(rng, kind):
    n = rng.choice([1, 1, 2, 4])
    if kind == "wr":
        if rng.random() < .15: return ",".join(["0@3000"] * rng.choice([5, 20, 60]))
        return ",".join(rng.choice(["1", "2", "3@200", "0@300", "E4", "E4@700"] + (["E5", "E11"] if i == n - 1 and rng.random() < .2 else [])) for i in range(n))
    if kind == "rd": return ",".join(rng.choice(["1", "2", "5", "E4"] + (["E5", "-1"] if rng.random() < .15 else [])) for i in range(n))
    return ",".join(rng.choice(["0", "E4@500", "E4@3000", "E4"] + (["E5"] if rng.random() < .1 else [])) for i in range(n))
def setting(rng):
    return dict(op="yset", v=rng.choice([10400, 10400, 9600, 38400, 360, 115200, 5, 1200, 4800, 19200, 57600, 83333, rng.randint(50, 120000)]), db=rng.choice([8, 8, 8, 7, 6, 5] + [rng.choice([4, 9])] * (rng.random() < .2)),
                sb=rng.choice([1, 1, 2] + [rng.choice([0, 3])] * (rng.random() < .2)), par=rng.choice([3, 3, 1, 2] + [rng.choice([0, 4])] * (rng.random() < .2)))
def device(rng):
    o = dict(op="fdev", v=rng.choice([9600, 38400, 115200, 1200, 50]), cf=rng.choice([0x30, 0xb0, 0x4b0, 0x80000030, 0x80000d20, 0x8b0, 0x3b0]), lf=rng.choice([0, 0x8a3b, 0x8a3b, 1, 8]), of=rng.choice([0, 5, 5]), mdm=rng.choice([6, 6, 0, 2, 4, 0x26, 0x164]), tioc=rng.choice([0, 1]),
             base=rng.choice([0, 0, 3000000, 1500000, 115200 * 16]), vmin=rng.choice([0, 1, 1]), vtime=rng.choice([0, 0, 5]), echo=rng.choice([0, 0, 1]))
    o["if"] = rng.choice([0, 0x500, 0x1400, 0x2d02, 0xffff & ~0x4000])
    return o
FAILS = ["open", "fcntl", "mget", "mset", "tcget", "tcset", "gser", "sser", "drain", "brkon", "brkoff", "tcflsh"]
def gen(rng, n):
    out = []
    for _ in range(n):
        if rng.random() < .12: out.append(ports(rng)); continue
        ops = [dict(op="mark"), device(rng)]; dev = ops[1]; base = dev["base"]
        for _ in range(rng.choice([1, 1, 2])):
            name = "/dev/tty%s%d" % (rng.choice(["S", "USB"]), rng.randrange(12))
            r = rng.random()
            if r < .25:
                ops += [dict(op="ffail", k=rng.choice(["open", "fcntl", "mget", "tcget", "tcset", "gser", "sser"]), at=rng.choice([0, 0, 1]))]
            elif r < .3: ops.append(dict(op="failat", n=rng.choice([1, 2])))
            ops.append(dict(op="yopen", n=name))
            ops += [dict(op="failat", n=0), dict(op="ffail")]
            if r < .3 and rng.random() < .5: ops.append(dict(op="yopen", n=name))
            for _ in range(rng.randint(1, 9)):
                r = rng.random()
                if r < .06: ops.append(dict(op="ffail", k=rng.choice(FAILS), at=rng.choice([0, 0, 0, 1])))
                elif r < .08: ops.append(dict(op="ffail"))
                elif r < .26: ops.append(setting(rng))
                elif r < .36: ops.append(dict(op="yctl", dtr=rng.choice([0, 1]), rts=rng.choice([0, 1])))
                elif r < .56:
                    if rng.random() < .35: ops.append(dict(op="fwr", r=acts(rng, "wr")))
                    ops.append(dict(op="ywrite", b=bts(rng, rng.choice([1, 1, 2, 5, 12, 40])))); ops.append(dict(op="fwr", r=""))
                elif r < .82:
                    if rng.random() < .8: ops.append(frx(rng, rng.choice([1, 2, 5, 12, 30])))
                    if rng.random() < .25: ops.append(dict(op="frd", r=acts(rng, "rd")))
                    if rng.random() < .25: ops.append(dict(op="fsel", r=acts(rng, "sel")))
                    ops.append(dict(op="yread", n=rng.choice([1, 1, 2, 3, 5, 12, 100]), w=rng.choice([1, 10, 30, 50, 100, 300, 9999])))
                    if rng.random() < .6: ops.append(dict(op="yread", n=rng.choice([1, 5, 100]), w=rng.choice([10, 100, 300])))
                    ops += [dict(op="frd", r=""), dict(op="fsel", r="")]
                elif r < .88:
                    ops.append(frx(rng, rng.choice([0, 1, 3, 12, 12]), rng.choice([0, 0, 10000]))) if rng.random() < .8 else None
                    ops[:] = [o for o in ops if o and o.get("r") != "" or o and o["op"] != "frx"]
                    if rng.random() < .3: ops.append(dict(op="adv", ms=rng.choice([1, 10, 100])))
                    ops.append(dict(op="yflush"))
                elif r < .93: ops.append(dict(op="ybrk", ms=rng.choice([1, 5, 25, 200, 400])))
                elif r < .97:
                    ops.append(dict(op="yflush")) if rng.random() < .8 else None
                    if rng.random() < .5 and not dev["echo"]: ops.append(dict(op="frx", r="%d:00" % rng.choice([29000, 35000, 70000])))
                    ops.append(dict(op="yfbrk", ms=rng.choice([50, 50, 25, 24, 100, 30])))
                    if rng.random() < .5: ops.append(dict(op="ywrite", b=bts(rng, 5)))
                else: ops.append(dict(op="adv", ms=rng.choice([1, 10, 100])))
                ops[:] = [o for o in ops if o]
            if rng.random() < .8: ops.append(dict(op="ffail"))
            ops += [dict(op="yclose"), dict(op="ffail"), dict(op="live")]
        out.append(dict(ops=ops))
    return out
def ports(rng):
    """what is in /dev"""
    def name(): return rng.choice(["ttyS%d", "ttyUSB%d", "ttyACM%d", "tty%d", "sda%d", "ttyAMA%d", "ttyUSB%d"]) % rng.randrange(40)
    ops = [dict(op="mark")]
    for d in ([0, 1] if rng.random() < .6 else [0]):
        seen = sorted({name() for _ in range(rng.choice([1, 2, 5, 9]))}); rng.shuffle(seen)
        ops.append(dict(op="fls", d=d, r=",".join(x + ":" + rng.choice("ttttnx") for x in seen)))
    if rng.random() < .15 and re.search(r"tty(S|USB|ACM)\d+:t", ops[1]["r"]): ops.append(dict(op="failat", n=rng.choice([1, 2])))
    ops += [dict(op="yports"), dict(op="failat", n=0), dict(op="live")]
    return dict(ops=ops)
