"""Scenarios for message chains (spec/Msg), errors (spec/Err) and configuration items (spec/Cfg)."""
from vlib import norm
CALL = dict(op="", h=0, a=0, k=0, n=0, b=[], fmt=0, type=0, dest=0, src=0, rx=0, v=0)
def rb(rng, n): return [rng.randrange(256) for _ in range(n)]
def anorm(s, evs, defaults):
    """norm, with the allocation failures armed for each call (arm)"""
    arm = 0; arms = []
    for o in s["ops"]:
        if o["op"] == "failat": arm = o["n"]
        arms.append(arm)
    ix = [e["i"] for e in evs if e["e"] == "call"]
    ev = norm(s, evs, defaults)
    for e, i in zip([e for e in ev if e["e"] == "call"], ix): e["c"]["arm"] = arms[i]
    return ev
def trace(s, evs): return dict(ev=anorm(s, evs, CALL))
def gen_msg(rng, n):
    out = []
    for i in range(n):
        sim = [0] * 8; lens = [[] for _ in range(8)]          # chain lengths per slot
        ops = [dict(op="mark")]
        def mset(h, k, ln): ops.append(dict(op="mset", h=h, k=k, fmt=rng.randrange(256), type=rng.randrange(256), dest=rng.randrange(256), src=rng.randrange(256), rx=rng.randrange(1 << 31), b=rb(rng, ln) if ln < 600 else rb(rng, 7) * (ln // 7) + rb(rng, ln % 7)))
        big = 0
        for k in range(rng.randint(4, 40)):
            r = rng.random(); free = [h for h in range(8) if not lens[h]]; used = [h for h in range(8) if lens[h]]
            fail = rng.random() < .06
            if (r < .3 or not used) and free:
                h = rng.choice(free); ln = rng.choice([0, 1, 2, 7, 12, 255]) if rng.random() < .9 else rng.choice([256, 4096, 4199, 4200, 4201, 5000, 1 << 20, -1])
                if ln > 1000: big += 1
                if big > 3 and 1000 < ln <= 4200: ln = 3
                if fail: ops.append(dict(op="failat", n=rng.choice([1, 2])))
                ops.append(dict(op="mall", h=h, n=ln if ln >= 0 else 1 << 30))
                if fail: ops.append(dict(op="failat", n=0)); ops.append(dict(op="mfree", h=h)); continue
                if 0 <= ln <= 4200: lens[h] = [ln]; mset(h, 0, ln)
            elif r < .5 and used and free:
                a = rng.choice(used); h = rng.choice(free); one = rng.random() < .35
                if fail: ops.append(dict(op="failat", n=rng.randint(1, 2 * len(lens[a]) + 1)))
                ops.append(dict(op="mdup1" if one else "mdup", h=h, a=a))
                if fail: ops += [dict(op="failat", n=0), dict(op="mfree", h=h)]; continue
                lens[h] = lens[a][:1] if one else list(lens[a])
            elif r < .62 and len(used) > 1:
                h, a = rng.sample(used, 2); lens[h] += lens[a]; lens[a] = []; ops.append(dict(op="mlink", h=h, a=a))
            elif r < .68 and used and free:
                h = rng.choice(used); a = rng.choice(free); k = rng.randint(1, len(lens[h])); ops.append(dict(op="mcut", h=h, a=a, k=k)); lens[a] = lens[h][k:]; lens[h] = lens[h][:k]
            elif r < .75 and used:
                h = rng.choice(used); p = rng.choice([0, 1, 2, 3]); ops.append(dict(op="mpeel", h=h, n=p))
                if lens[h][0] >= p: lens[h][0] -= p
            elif r < .85 and used:
                h = rng.choice(used); k = rng.randrange(len(lens[h])); mset(h, k, lens[h][k])
            elif r < .93: h = rng.choice(used or [0]); lens[h] = []; ops.append(dict(op="mfree", h=h))
            else: ops.append(dict(op="mfree", h=rng.choice(free or [0]))) if free else None
            for h in range(8):
                if lens[h] and rng.random() < .4 and sum(lens[h]) < 3000 or rng.random() < .03: ops.append(dict(op="mshow", h=h))
        for h in range(8):
            if sum(lens[h]) < 9000: ops.append(dict(op="mshow", h=h))
        hs = list(range(8)); rng.shuffle(hs)
        if rng.random() < .3: ops.append(dict(op="live"))
        for h in hs: ops.append(dict(op="mfree", h=h))
        ops += [dict(op="mcks", b=rb(rng, rng.choice([0, 1, 2, 30]))), dict(op="live")]
        out.append(dict(ops=ops))
    # long chains
    for ln in (50, 400):
        ops = [dict(op="mark"), dict(op="mall", h=0, n=1), dict(op="mset", h=0, b=[7])]
        for _ in range(ln): ops += [dict(op="mall", h=1, n=1), dict(op="mset", h=1, b=rb(rng, 1), src=rng.randrange(256)), dict(op="mlink", h=1, a=0), dict(op="mlink", h=0, a=1)]
        ops += [dict(op="mdup", h=2, a=0), dict(op="mfree", h=0), dict(op="mcut", h=2, a=3, k=ln - 10), dict(op="mshow", h=3), dict(op="mfree", h=2), dict(op="mshow", h=3), dict(op="mfree", h=3), dict(op="live")]
        out.append(dict(ops=ops))
    return out
KN = [-1, -2, -3, -4, -5, -6, -7, -8, -16, -17, -18, -19, -20, -21, -22, -32, -40, -41, -43, -44]
ECALL = dict(CALL, k="i", ty="")
def etrace(s, evs): return dict(ev=norm(s, evs, ECALL))
def gen_err(rng, n):
    out = [dict(ops=[dict(op="elook", v=v) for v in rng.sample(KN * 2, 2 * len(KN))] + [dict(op="elook", v=v) for v in list(range(-60, 5)) + [127, -128, 2147483647, -2147483648, 1000]]), dict(ops=[dict(op="elook", v=v) for v in range(-50, 1)])]
    for i in range(n):
        ops = []
        for k in range(rng.randint(3, 25)):
            r = rng.random()
            if r < .55: ops.append(dict(op="eset", k=rng.choice(["i", "p", "i", "p", "if", "pf"]), v=rng.choice(KN) if rng.random() < .9 else rng.choice([5, -60, 1, -9])))
            elif r < .8: ops.append(dict(op="geterr"))
            elif r < .87: ops += [dict(op="mall", h=0, n=rng.choice([4201, 9999, 3])), dict(op="mfree", h=0)]
            elif r < .93: ops += [dict(op="knew", h=0, ty="int", v=3, **{"def": 4}), dict(op="kset", h=0, ty="u8", v=3), dict(op="kdel", h=0)]
            else: ops.append(dict(op="elook", v=rng.choice(KN)))
        ops += [dict(op="geterr"), dict(op="geterr")]
        out.append(dict(ops=ops))
    return out
KCALL = {"op": "", "h": 0, "ty": "", "v": 0, "def": 0, "b": [], "s": "", "p": [], "n": 0}
def ktrace(s, evs):
    ev = anorm(s, evs, KCALL)
    ty = {}
    for e in ev:
        if e["e"] == "call":
            c = e["c"]; c["s"] = "".join(map(chr, c["b"])); c["p"] = [x for x in c["p"].split("|")] if c["p"] else []
            cur = c
            if c["op"] == "knew": ty[c["h"]] = c["ty"]
        elif e["e"] == "ret" and "g" in e and ty.get(cur["h"]) in ("int", "u8", "bool"):
            try: e["g"] = str(int(e["g"], 0))
            except ValueError: pass
    return dict(ev=ev)
STR = ["", "a", "/dev/ttyS0", "/dev/ttyUSB12", "freediag_carsim.db", "x" * 300, "some words.db", "COM11", "0x10"]
INTS = [0, 1, -1, 7, 10400, 38400, 1234567, 12345678, -1234567, -123456, 2147483647, -2147483648]
def gen_cfg(rng, n):
    out = []
    def st(): return list(map(ord, rng.choice(STR)))
    for i in range(n):
        ops = [dict(op="mark")]; live = {}
        def num(ty): return rng.choice([0, 1, 2, 127, 128, 255, 0x42]) if ty == "u8" else rng.choice([0, 1]) if ty == "bool" else rng.choice(INTS)
        for k in range(rng.randint(5, 40)):
            h = rng.randrange(4); fail = rng.random() < .08
            if h not in live:
                ty = rng.choice(["int", "u8", "bool", "str", "str", "tty", "tty"]); live[h] = ty
                ops.append({"op": "knew", "h": h, "ty": ty, "v": num(ty), "def": num(ty), "b": st()}); nopt = False; continue
            ty = live[h]; r = rng.random(); rt = "str" if ty == "tty" else ty
            if r < .06: ops.append(dict(op="kdel", h=h)); del live[h]; continue
            if r < .14: ops.append(dict(op="kports", p="|".join(rng.sample(["/dev/ttyS0", "/dev/ttyUSB1", "/dev/ttyACM0", "/dev/ttyS3"], rng.randrange(4))))); continue
            if fail: ops.append(dict(op="failat", n=rng.choice([1, 1, 2, 3])))
            if r < .38: t = rt if rng.random() < .75 else rng.choice(["int", "u8", "bool", "str"]); ops.append(dict(op="kset", h=h, ty=t, v=num(t), b=st()))
            elif r < .42: ops.append(dict(op="kself", h=h))
            elif r < .6 and (ty != "u8" and ty != "bool"): ops.append(dict(op="kopt", h=h, v=rng.choice([0, 0, 1, 2, 3, -1, -5, 4, 100, 2147483647, -2147483648])))
            elif r < .72: ops.append(dict(op="kget", h=h))
            elif r < .8: ops.append(dict(op="kreset", h=h))
            elif r < .88: ops.append(dict(op="kref", h=h))
            elif r < .93: ops.append(dict(op="kclear", h=h))
            elif not fail and (rt == "str" or ty == "int"):
                if rt == "str": ops.append(dict(op="kclear", h=h))
                ops.append(dict(op="kopts", h=h, p="|".join(rng.sample(["alpha", "beta", "gamma", "delta"], rng.randint(1, 4)))))
            if fail: ops.append(dict(op="failat", n=0))
        for h in live: ops += [dict(op="kget", h=h), dict(op="kdel", h=h)]
        ops += [dict(op="live")]
        out.append(dict(ops=ops))
    return out
