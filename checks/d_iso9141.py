"""Scenarios for ISO9141 (spec/Iso9141)."""
from vlib import norm
from d_iso14230 import F, split
CALL = dict(op="", fl=0, br=10400, tgt=0, src=0, b=[], w=0)
TTY = 3; PLAIN = 3 | F["AUTO"]; SMART = PLAIN | F["NOTTY"] | F["FRAME"]
IFACES = [TTY, TTY, PLAIN, PLAIN | F["P4"], TTY | F["CK"], TTY | F["SLOWI"], TTY | F["STRIP"], SMART, SMART | F["STRIP"], SMART | F["CK"] | F["STRIP"] | F["FULL"],
          SMART | F["CK"] | F["FULL"] | F["DATA"], SMART | F["CK"] | F["STRIP"] | F["FULL"] | F["NOHDR"], SMART | F["NOHDR"], TTY | F["HALF"], SMART | F["STRIP"] | F["SLOWI"], TTY | F["NOHDR"]]
def trace(s, evs):
    return dict(flags=s["flags"], ev=norm(s, evs, CALL, drop=("l0open", "l0close", "wm")))
def cs(b): return list(b) + [sum(b) & 255]
def head(fl): return [dict(op="dnew"), dict(op="dev", d=0, flags=fl, echo=1 if fl & F["HALF"] else 0), dict(op="mark"), dict(op="l2open", d=0, p=1)]
def start(rng, fl, mode=0, tgt=0x33, kb=(8, 8), ack=None, ib=0, br=10400, src=0xf1):
    ops = []
    if mode == 0:
        r = [(rng.choice([0, 5, 18]), [kb[0]]), (rng.choice([0, 5, 18]), [kb[1]])] if isinstance(kb, tuple) else kb
        if fl & F["FULL"]: r = []
        ops.append(dict(op="init", d=0, rc=ib, r=r if ib >= 0 else []))
        if not fl & (F["FULL"] | F["SLOWI"]) and isinstance(kb, tuple) and kb in ((8, 8), (0x94, 0x94)) and ib >= 0:
            ops.append(dict(op="turn", d=0, r=[(rng.choice([25, 30, 50]), [~tgt & 255])] if ack is None else ack))
    return ops + [dict(op="start", c=0, p=1, fl=mode, br=br, tgt=tgt, src=src)]
def gen_init(rng, n):
    out = []
    for i in range(n):
        fl = rng.choice(IFACES); tgt = rng.choice([0x33, 0x10, 0x01, 0xfe, rng.randrange(256)]); ops = head(fl)
        r = rng.random(); br = rng.choice([10400, 0, 9600]); src = rng.choice([0xf1, 0xf5]); ok = False
        kb = rng.choice([(8, 8), (8, 8), (0x94, 0x94)])
        if r < .25: ops += start(rng, fl, 0, tgt, kb, None, br=br, src=src); ok = True
        elif r < .5:
            kb = rng.choice([(8, 0x94), (0x94, 8), (0x8f, 0x8f), (rng.randrange(256), rng.randrange(256)), (0, 0), (0x88, 0x88), (8, 0x88), (0x14, 0x14)])
            if rng.random() < .3: v = rng.randrange(256); kb = (v, v)
            ok = kb in ((8, 8), (0x94, 0x94)) ; ops += start(rng, fl, 0, tgt, kb, br=br)
        elif r < .62: ops += start(rng, fl, 0, tgt, rng.choice([[], [(5, [8])], [(5, "E-16")], [(5, [0x94]), (5, "E-8")]]), br=br); ok = fl & F["FULL"] != 0
        elif r < .85:
            ack = rng.choice([[], [(30, [tgt])], [(30, [(~tgt & 255) ^ (1 << rng.randrange(8))])], [(30, "E-16")], [(30, [0xff])]])
            ops += start(rng, fl, 0, tgt, kb, ack, br=br, src=src); ok = fl & (F["FULL"] | F["SLOWI"]) != 0
        elif r < .92: ops += start(rng, fl, rng.choice([1, 2, 4]), tgt)
        elif r < .96: ops += start(rng, fl, 3, tgt); ok = True
        else: ops += start(rng, fl, 0, tgt, ib=rng.choice([-1, -16]))
        mon = ops[-1]["fl"] == 3
        if fl & F["FULL"] and ops[-1]["fl"] == 0 and not any(o.get("rc", 0) < 0 for o in ops): ok = True; kb = (8, 8)
        if ok:
            if not mon:
                e = [0x48, 0x6b, 0x10, 0x41, 0]; f = cs(e)
                if fl & F["STRIP"]: f = e
                if fl & F["NOHDR"]: f = f[3:]
                g2 = [] if kb == (8, 8) or fl & F["FRAME"] else [(rng.choice([24, 30]), f)]
                ops.append(dict(op="turn", d=0, r=[(25, f)] + g2)); ops.append(dict(op="req", c=0, b=[1, 0]))
            ops.append(dict(op="stop", c=0))
        else: ops += [dict(op="live"), dict(op="req", c=0, b=[1, 0])] if rng.random() < .5 else []
        ops += [dict(op="l2close", d=0), dict(op="live")]
        ops = [o for o in ops if not (o["op"] == "live" and o is not ops[-1])]
        out.append(dict(flags=fl, ops=ops))
    return out
def rframe(rng, fl):
    n = rng.choice([1, 2, 3, 4, 5, 6, 7, 7])
    b = [0x48, 0x6b, rng.randrange(256)] + [rng.randrange(256) for _ in range(n)]
    if fl & F["NOHDR"]: b = b[3:]
    return b if fl & F["STRIP"] else cs(b)
def damage(rng, fl, f):
    k = rng.randrange(5)
    if k == 0: f = list(f); f[rng.randrange(len(f))] ^= 1 << rng.randrange(8); return f
    if k == 1: return f[:rng.randint(1, len(f))]
    if k == 2: return f if fl & F["FRAME"] else f + [rng.randrange(256) for _ in range(rng.randint(1, 25))]
    if k == 3: f = list(f); f[-1] ^= 1 << rng.randrange(8); return f
    return [rng.randrange(256) for _ in range(rng.randint(1, 11))]
def bursts(rng, fl, kb, frames):
    r = []
    for i, f in enumerate(frames):
        smart = fl & F["FRAME"]
        parts = [f] if smart else split(rng, f)
        for j, p in enumerate(parts):
            g = (rng.choice([25, 30, 49]) if kb == (8, 8) or i == 0 else rng.choice([24, 35, 50])) if j == 0 else rng.choice([0, 1, 5, 12, 20] if kb == (8, 8) else [0, 1, 5, 12])
            r.append((g, p))
    return r
def gen_msg(rng, n):
    out = []
    for i in range(n):
        fl = rng.choice(IFACES); tgt = 0x33; kb = rng.choice([(8, 8), (8, 8), (0x94, 0x94)]); src = rng.choice([0xf1, 0xf5])
        if fl & F["FULL"]: kb = (8, 8)
        ops = head(fl) + start(rng, fl, 0, tgt, kb, src=src)
        for k in range(rng.randint(2, 5)):
            ops.append(dict(op="adv", ms=rng.choice([0, 30, 200])))
            ln = rng.choice([1, 2, 3, 4, 5, 6, 7, 7, 8, 12, 0] + ([100, 255, 256] if rng.random() < .3 else []))
            pay = [rng.randrange(256) for _ in range(ln)]
            r = rng.random(); fs = [rframe(rng, fl) for _ in range(rng.choice([1, 1, 1, 2, 3, 4]))]
            if rng.random() < .35: j = rng.randrange(len(fs)); fs[j] = damage(rng, fl, fs[j])
            if fl & F["NOHDR"] and any(len(f) < 2 for f in fs): continue
            bs = bursts(rng, fl, kb, fs)
            if rng.random() < .08: bs.append((5, "E-16"))
            if r < .3:
                if rng.random() < .1 and 1 <= ln <= 7: ops.append(dict(op="sendrc", d=0, rc=rng.choice([-1, -16])))
                ops.append(dict(op="send", c=0, b=pay)) ; ops.append(dict(op="adv", ms=300))
            elif r < .45:
                ops += [dict(op="push", d=0, r=bs if rng.random() < .85 else []), dict(op="recv", c=0, w=rng.choice([70, 100, 300]))]
                if any(isinstance(b, str) for _, b in bs): ops.append(dict(op="req", c=0, b=[1, 0]))
            else:
                if 1 <= ln <= 7: ops.append(dict(op="turn", d=0, r=bs if rng.random() < .88 else []))
                ops.append(dict(op="req", c=0, b=pay))
                if any(isinstance(b, str) for _, b in bs) and rng.random() < .7 and 1 <= ln <= 7:
                    ops += [dict(op="turn", d=0, r=bursts(rng, fl, kb, [rframe(rng, fl)])), dict(op="req", c=0, b=[1, 12])]
        ops += [dict(op="stop", c=0), dict(op="l2close", d=0), dict(op="live")]
        out.append(dict(flags=fl, ops=ops))
    return out
