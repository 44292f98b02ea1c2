"""Scenarios for the ELM32x driver (spec/Elm): dialogues (C31) and traffic (C32)."""
from vlib import CheckError
CALL = dict(op="other", p=1, b=[], v=38400, n=1024, w=100, type=1, addr=0x33, src=0xf1, phys=0, cmd=0)
KNOWN = ("ecfg", "eopen", "eclose", "esend", "erecv", "ewm", "eio", "einit")
def trace(s, evs):
    out = []
    for e in evs:
        if e["e"] == "call":
            o = s["ops"][e["i"]]; c = dict(CALL, **{k: v for k, v in o.items() if k in CALL})
            if o["op"] not in KNOWN: c["op"] = "other"
            if o["op"] == "ecfg": c["port"] = bytes(o["b"]).decode()
            out.append(dict(e="call", t=e["t"], c=c))
        elif e["e"] == "badop": raise CheckError("harness does not know an op")
        else: out.append(e)
    return dict(ev=out)
def A(t): return t.encode("latin-1").hex()
def turn(rng, t, gap=None, split=True):
    """text as bursts"""
    if gap is None: gap = rng.choice([1, 2, 10, 60])
    if not t: return "-"
    b = t.encode("latin-1")
    if not split or rng.random() < .6 or len(b) < 2: return "%d:%s" % (gap, b.hex())
    k = rng.randrange(1, len(b)); return "%d:%s,%d:%s" % (gap, b[:k].hex(), rng.choice([1, 5, 40]), b[k:].hex())
OFF327 = ["1.0a", "1.0", "1.1", "1.2a", "1.2", "1.3a", "1.3", "1.4b", "2.0"]; CL327 = ["1.4a", "1.4", "1.5a", "1.5", "2.1", "2.2", "1.6", "9.9"]
ERR = ["BUS BUSY", "FB ERROR", "DATA ERROR", "<DATA ERROR", "NO DATA", "?"]; ERR7 = ["ACT ALERT", "BUFFER FULL", "BUS ERROR", "CAN ERROR", "LP ALERT", "LV RESET", "<RX ERROR", "STOPPED", "UNABLE TO CONNECT", "ERR94", "ERR"]
def badreply(rng):
    e = rng.choice(ERR + ERR7)
    return rng.choice(["", e + "\r\r>", e + "\r>", "OK " + e + "\r>", "OK\r\r", "OK", "\r>", ">", "HELLO\r\r>", "OK\r> ", e, "\xff\xfe\x80", "O K\r>", "ok\r>", "STOPPED\r\r>", "OK\r>" + e, "OK\r>\r", "ELM327 v1.5\r\r>"])
def goodreply(rng):
    return rng.choice(["OK\r\r>", "OK\r>", "OK\r\n\r\n>", "OK>", "\rOK\r\r>", "ATXX\rOK\r\r>", "OK\r\r>"])
def adapter(rng, kind=None, clone=None):
    kind = kind or rng.choice(["327", "327", "327", "323"])
    if kind == "323": v = rng.choice(["2.0", "2.0", "1.0"]) if clone is None else ("1.9" if clone else "2.0")
    else: v = rng.choice(OFF327 + CL327) if clone is None else rng.choice(CL327 if clone else OFF327)
    name = "ELM%s v%s" % (kind, v)
    return dict(kind=kind, v=v, name=name, clone=not any(x in name for x in (["2.0"] if kind == "323" else OFF327)))
def setup(rng, ad, cfg=38400, baud=38400, kw=None):
    z = rng.choice(["\r\r%s\r\r>", "ATZ\r\r\r%s\r\r>", "%s\r>", "\xfc\r%s\r\r>"]) % (ad["name"] + (rng.choice(["\rACT ALERT", "\rLP ALERT", "\r?"]) if rng.random() < .04 else ""))
    kw = kw or "1:%02X 2:%02X\r\r>" % (rng.choice([0xD0, 0x08, 0x94, 0xEA, rng.randrange(256)]), rng.choice([0x8F, 0x08, 0x94, rng.randrange(256)]))
    ops = [dict(op="enew"), dict(op="ecfg", b=list(b"/dev/elm%d" % rng.randrange(9)), v=cfg), dict(op="ttb", v=baud, r=rng.choice(["-", "-", "5:ff80", "5:3e"]) if baud != cfg else "-")]
    ops += [dict(op="tta", c=A("ATZ\r"), r=turn(rng, z)), dict(op="tta", c=A("ATI\r"), r=turn(rng, rng.choice(["%s\r\r>" % ad["name"], "ATI\r%s\r\r>" % ad["name"], "?\r\r>", ">"]))),
            dict(op="tta", c=A("ATKW\r"), r=turn(rng, kw))]
    return ops
def tail(rng, ad, obd="41 00 BE 3E B8 11 \r\r>"):
    return [dict(op="tta", c=A("ATSI"), r=turn(rng, goodreply(rng), gap=rng.choice([5, 2000, 2400]), split=False)), dict(op="tta", c=A("ATFI"), r=turn(rng, goodreply(rng), gap=rng.choice([5, 400]), split=False)), dict(op="tta", c=A("AT"), r=turn(rng, goodreply(rng))), dict(op="tta", c=A("0100\r"), r=turn(rng, obd, gap=rng.choice([20, 300, 900])))]
PROTO = [1, 1, 2, 2, 4, 8, 16]
def end(rng): return [dict(op="eclose"), dict(op="edel"), dict(op="live")]
def gen_dialog(rng, n):
    out = []
    for i in range(n):
        ad = adapter(rng); baud = rng.choice([38400, 38400, 38400, 9600, 115200, 57600]); cfg = rng.choice([38400, 38400, 9600, 115200, 19200, 57600, baud])
        kw = rng.choice([None, None, None, None, "?\r\r>", "1:D0\r\r>", "\r\r>", "1:-- 2:--\r\r>", "BUS ERROR\r>", "1:G0 2:8F\r>", "", "2:8F 1:D0\r\r>"])
        if rng.random() < .06: ad["name"] = rng.choice(["ELM322 v2.0", "", "STN1110", "LM327 v1.5", "ELM327"]); 
        ops = [dict(op="mark")] + setup(rng, ad, cfg, baud, kw)
        if rng.random() < .06: ops.append(dict(op="ttf", **{rng.choice(["open", "set", "write", "write"]): ",".join(map(str, rng.sample(range(4), rng.choice([1, 1, 2]))))}))
        elif rng.random() < .06: ops.append(dict(op="ttf", write=str(rng.randrange(16))))
        ops += tail(rng, ad, rng.choice(["41 00 BE 3E B8 11 \r\r>", "BUS INIT: OK\r41 00 BE\r\r>", "BUS INIT: ...OK\r41 00 \r>", "BUS INIT: ERROR\r\r>", "UNABLE TO CONNECT\r\r>", "NO DATA\r\r>", "", "41 00 BE"]))
        for _ in range(rng.randint(1, 3)):
            if rng.random() < .3:
                bad = rng.randrange(9)
                for _ in range(rng.choice([1, 1, 2])): ops.append(dict(op="tto", at=bad + rng.choice([0, 1]), r=turn(rng, badreply(rng))))
                if rng.random() < .1: ops.append(dict(op="tto", at=bad, r="5:E-1"))
            p = rng.choice(PROTO) if rng.random() < .9 else rng.choice([1, 2])
            ops.append(dict(op="eopen", p=p))
            if rng.random() < .1: ops.append(dict(op="eio", cmd=rng.choice([0x2202, 0x2101, 0x2010, 0])))
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                if rng.random() < .25: ops.append(dict(op="ewm", b=[rng.randrange(256) for _ in range(rng.choice([4, 4, 4, 3, 5, 0]))]))
                if rng.random() < .4:
                    at = rng.randrange(7); ops.append(dict(op="tto", at=at, r=turn(rng, badreply(rng))))
                    if rng.random() < .3: ops.append(dict(op="tto", at=at + 1, r=turn(rng, badreply(rng))))
                if rng.random() < .05: ops.append(dict(op="ttf", write=str(rng.randrange(7))))
                ops.append(dict(op="einit", type=rng.choice([1, 2]) if rng.random() < .95 else rng.choice([0, 3, 9]), addr=rng.choice([0x33, 0x33, 0x10, rng.randrange(256)]), src=rng.choice([0xf1, rng.randrange(256)]), phys=rng.choice([0, 1])))
                if rng.random() < .3:
                    b = [rng.choice([0x68, 0x81, 0xC1, 0x84]), rng.choice([0x6a, 0x10]), rng.choice([0xf1, 0xf2]), 1, rng.randrange(256)]
                    ops += [dict(op="esend", b=b), dict(op="erecv", w=rng.choice([50, 300]))]
            ops.append(dict(op="eclose"))
        out.append(dict(ops=ops + end(rng)))
    return out
def frame(rng): return [rng.randrange(256) for _ in range(rng.choice([1, 2, 5, 6, 7, 11, 12, 30]) if rng.random() < .95 else rng.choice([100, 260, 400]))]
def ftext(rng, f):
    sep = rng.choice([" ", " ", " ", "", "  "]); fm = rng.choice(["%02X", "%02X", "%02X", "%02x"])
    return sep.join(fm % x for x in f) + rng.choice(["", " ", " "])
def answer(rng):
    """the text an adapter sends after a request"""
    r = rng.random()
    if .85 <= r < .92 and rng.random() < .7: r = .1
    eol = rng.choice(["\r", "\r", "\r\n"]); fs = [frame(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    good = eol.join(ftext(rng, f) for f in fs) + eol + rng.choice([eol, ""]) + ">"
    if r < .55: t = rng.choice(["", "", eol, " "]) + good
    elif r < .67: t = rng.choice(ERR + ERR7) + rng.choice(["\r\r>", "\r>", "", "\r"])
    elif r < .72: t = ftext(rng, fs[0]) + rng.choice(["<DATA ERROR", "<RX ERROR", " <DATA ERROR"]) + "\r\r>"
    elif r < .78: t = good[: rng.randrange(len(good))]
    elif r < .81: t = ""
    elif r < .85: t = rng.choice(["SEARCHING...\r", "BUS INIT: OK\r", "BUS INIT: ...ERROR\r\r>", "HELLO\r>", "4\r41 00\r>", "4G\r>", "+1\r>", "-1 00\r>", "0x41\r>", "41 0\r>", "41 0 00\r>", "0\r\r>", "\r>", ">", " \r \r>", "0:41 02\r>", "00A\r0:41 00 01 02\r>", "\x8041\r>", "41,00\r>", "A", "?", "41 00 ?", "41 00 ?"]) + rng.choice(["", good])
    elif r < .87: t = rng.choice([" ", "\r", ">", " \r"]) * rng.choice([3000, 3071, 3072, 3073, 4000]) + good
    elif r < .89: t = " ".join("%02X" % (x & 255) for x in range(rng.choice([1022, 1023, 1024, 1025]))) + "\r\r>"
    elif r < .92: t = rng.choice(["Z", "?", "NO DATA ", "41 ZZ ", "FB "]) * rng.choice([1000, 3071, 3072, 3080]) + "\r>"
    else:
        b = list(good); k = rng.randrange(len(b)); b[k] = chr(rng.choice([*range(33, 127), 7, 200, 255])); t = "".join(b)
    return t
def gen_traffic(rng, n):
    out = []
    for i in range(n):
        ad = adapter(rng); p = rng.choice([1, 1, 1, 2, 2, 4, 8] if ad["kind"] == "327" else [1, 2])
        ops = [dict(op="mark")] + setup(rng, ad); pos = len(ops); ents = []; at = []
        seq = [dict(op="eopen", p=p)]
        if p in (1, 2) and rng.random() < .7: seq.append(dict(op="einit", type=rng.choice([1, 2]), addr=0x33, phys=rng.choice([0, 1])))
        hdrs = [[rng.choice([0x68, 0x80, 0x81, 0xC1, 0x48, 0]), rng.choice([0x6a, 0x10, 0x33, 0]), rng.choice([0xf1, 0xf1, 0xf2, 0])] for _ in range(rng.choice([1, 2, 3]))]
        for j in range(rng.randint(1, 7)):
            n_ = rng.choice([1, 2, 3, 5, 7, 12]) if rng.random() < .93 else rng.choice([0, 100, 255, 496, 499, 500, 600])
            d = [rng.randrange(256) for _ in range(n_)]
            if p == 1 and rng.random() < .9: d = rng.choice(hdrs) + d
            asc = "".join("%02X" % x for x in (d[3:] if p == 1 else d)) + "\r"
            if len(ents) < 40 and len(asc) < 60: ents.append(dict(op="tta", c=A(asc), r="|".join(turn(rng, answer(rng), gap=rng.choice([5, 30, 80, 140, 300])) for _ in range(2))))
            if rng.random() < .12: seq.append(dict(op="tto", at=rng.randrange(3), r=turn(rng, badreply(rng))))
            if rng.random() < .03: seq.append(dict(op="ttf", write=str(rng.randrange(3))))
            seq.append(dict(op="esend", b=d))
            for _ in range(rng.choice([1, 1, 2, 3, 4])): seq.append(dict(op="erecv", w=rng.choice([0, 20, 50, 100, 300, 1000]), n=1024 if rng.random() < .9 else rng.choice([0, 1, 2, 5, 260, 1023, 1025])))
            if rng.random() < .1: seq.append(dict(op="ttp", r=turn(rng, answer(rng))))
            if rng.random() < .15: seq.append(dict(op="adv", ms=rng.choice([10, 500])))
        out.append(dict(ops=ops + ents + tail(rng, ad) + seq + end(rng)))
    return out
