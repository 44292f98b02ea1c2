"""Scenarios for SAE J1850 (spec/J1850)."""
from vlib import norm
from d_iso14230 import F
CALL = dict(op="", fl=0, br=10400, tgt=0, src=0, b=[], w=0)
PLAIN = 3 | F["AUTO"] | F["NOTTY"]; SMART = PLAIN | F["FRAME"]
IFACES = [SMART, SMART, SMART | F["P4"], SMART | F["CK"], SMART | F["STRIP"], SMART | F["CK"] | F["STRIP"], SMART | F["CK"] | F["STRIP"] | F["DATA"], SMART | F["NOHDR"],
          SMART | F["NOHDR"] | F["STRIP"] | F["DATA"], SMART | F["DATA"], PLAIN, 3]
def trace(s, evs):
    return dict(flags=s["flags"], proto=s["proto"], ev=norm(s, evs, CALL, drop=("l0open", "l0close", "wm", "speed", "ib")))
def crc(b):
    c = 0xff
    for x in b:
        c ^= x
        for _ in range(8): c = ((c << 1) ^ 0x1d) & 255 if c & 0x80 else (c << 1)
    return c ^ 255
def rframe(rng, fl):
    n = rng.choice([1, 2, 3, 4, 5, 7, 7, 8, 30, 252, 253, 255, 256, 600])
    b = [rng.choice([0x48, 0x41, rng.randrange(256)]), rng.choice([0xf1, 0x6b, rng.randrange(256)]), rng.randrange(256)] + [rng.randrange(256) for _ in range(n)]
    if fl & F["NOHDR"]: b = b[3:]
    return b if fl & F["STRIP"] else b + [crc(b)]
def frames(rng, fl):
    r = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3, 5])):
        f = rframe(rng, fl); k = rng.random()
        if k < .12: f = list(f); f[rng.randrange(len(f))] ^= 1 << rng.randrange(8)
        elif k < .24: f = f[:rng.randint(1, min(5, len(f)))]
        elif k < .30: f = [rng.randrange(256) for _ in range(rng.randint(1, 12))]
        r.append((rng.choice([0, 1, 20, 40, 90]), f))
    if rng.random() < .08: r.append((5, "E%d" % rng.choice([-16, -1, -18])))
    return r
def gen(rng, n):
    out = []
    for i in range(n):
        fl = rng.choice(IFACES); p = rng.choice([4, 8])
        ops = [dict(op="dnew"), dict(op="dev", d=0, flags=fl), dict(op="mark"), dict(op="l2open", d=0, p=p),
               dict(op="start", c=0, p=4, fl=rng.choice([0, 0x10, 1]), tgt=rng.choice([0x6a, 0x10, rng.randrange(256)]), src=rng.choice([0xf1, 0xf5, rng.randrange(256)]))]
        for k in range(rng.randint(2, 6)):
            ln = rng.choice([1, 2, 3, 4, 7, 8, 12, 100, 251, 252, 253, 255, 256, 300, 1019, 1020, 1021, 1500]) if rng.random() < .6 else rng.randint(1, 8)
            pay = [rng.randrange(256) for _ in range(ln)]
            ops.append(dict(op="adv", ms=rng.choice([0, 30])))
            r = rng.random(); bs = frames(rng, fl); ok = ln + 4 < 1024
            if r < .3:
                if rng.random() < .15 and ok: ops.append(dict(op="sendrc", d=0, rc=rng.choice([-1, -16])))
                ops.append(dict(op="send", c=0, b=pay))
            elif r < .45:
                ops += [dict(op="push", d=0, r=bs), dict(op="recv", c=0, w=rng.choice([50, 100, 300])), dict(op="adv", ms=600), dict(op="recv", c=0, w=600)]
                if any(isinstance(b, str) for _, b in bs): break
            else:
                if ok: ops.append(dict(op="turn", d=0, r=bs))
                ops.append(dict(op="req", c=0, b=pay))
                if any(isinstance(b, str) for _, b in bs) and rng.random() < .6 and ok: ops += [dict(op="turn", d=0, r=[(10, rframe(rng, fl))]), dict(op="req", c=0, b=[1, 0]), dict(op="recv", c=0, w=50)]
                if not fl & F["FRAME"]: break
        ops += [dict(op="stop", c=0), dict(op="l2close", d=0), dict(op="live")]
        out.append(dict(flags=fl, proto=p, ops=ops))
    return out
