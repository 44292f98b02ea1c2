"""Scenarios for links, connections and the periodic upkeep (spec/Link)."""
from vlib import norm
FULL, CK, FRAME, STRIP, AUTO, NOTTY, KA = 0x4000, 0x80, 0x20, 0x100, 0x400, 0x800, 0x10000
SER = 3
SMART = 3 | AUTO | NOTTY | FULL | CK | FRAME | STRIP
CALL = dict(op="", t=0, d=0, c=0, p=0, fl=0, x=0, nomem=0)
def trace(s, evs):
    ev = norm(s, evs, CALL, keep=("l0open", "l0close", "tx", "ib", "speed", "wm", "nt0", "nt1", "rt0", "rt1", "tcreate", "tdelete", "ret", "call"), merge_tx=0)
    for e in ev:
        if e["e"] == "tx": e["th"] = e.get("th", 0)
    return dict(flags=s["flags"], masks=s["masks"], ev=ev)
def cs(b): return list(b) + [sum(b) & 255]
ROLES = ("k14230", "k9141", "mb1", "smart")
def setup(rng, d, role, answer=True, ka=False, mask=0xff):
    fl = (SMART if role == "smart" else SER) | (KA if ka else 0)
    ops = [dict(op="dev", d=d, flags=fl, mask=mask)]
    if role == "k14230":
        ops.append(dict(op="tab", d=d, rq="8110f181", r=[(30, cs([0x83, 0xf1, 0x10, 0xc1, 0xef, 0x8f]))]))
        ops.append(dict(op="tab", d=d, rq="8111f181", r=[(30, cs([0x83, 0xf1, 0x11, 0x7f, 0x81, 0x10]))]))
        if answer:
            ops.append(dict(op="tab", d=d, rq="8110f13e", r=[(30, cs([0x81, 0xf1, 0x10, 0x7e]))]))
            ops.append(dict(op="tab", d=d, rq="8210f121", r=[(30, cs([0x82, 0xf1, 0x10, 0x61, 1]))]))
    elif role == "k9141":
        ops.append(dict(op="init", d=d, rc=0, keep=1, r=[(20, [8]), (5, [8])]))
        ops.append(dict(op="tab", d=d, rq="f7", x=1, r=[(25, [0xcc])]))
        if answer: ops.append(dict(op="tab", d=d, rq="686af1", r=[(30, cs([0x48, 0x6b, 0x10, 0x41, 0]))]))
    elif role == "mb1":
        ops.append(dict(op="init", d=d, rc=0, keep=1, r=[(20, [0xc2]), (5, [0xcd])]))
        if answer: ops.append(dict(op="tab", d=d, rq="..", r=[(30, [0x10, 0x51, 5, 0x66, 0])]))
    else:
        ops.append(dict(op="init", d=d, rc=0, keep=1, kb1=0xd3, kb2=0xb0))
        if answer: ops.append(dict(op="tab", d=d, rq="8210f1a1", r=[(30, [0x82, 0xf1, 0x10, 0x7e, 0xa1, 0])])) ; ops.append(dict(op="tab", d=d, rq="..", r=[(30, [0x82, 0xf1, 0x10, 0x61, 1])]))
    return fl, ops
def start(rng, d, c, role, bad=False):
    """a start op whose outcome is determined by the scripted ECU (x)"""
    o = dict(op="start", c=c, d=d, br=10400, src=0xf1, tgt=0x10)
    if bad:
        k = rng.choice(["unknown", "can", "ecu"])
        if k == "unknown": o.update(p=42, fl=0, x=0); return o
        if k == "can": o.update(p=5, fl=0, x=0); return o
        if role == "k14230": o.update(p=3, fl=1, tgt=rng.choice([0x11, 0x12]), x=0)
        elif role == "k9141": o.update(p=1, fl=rng.choice([0, 1]), tgt=0x34, x=0)
        elif role == "mb1": o.update(p=rng.choice([1]), fl=0, x=0)
        else: o.update(p=9, fl=1, x=0)
        return o
    r = rng.random()
    if r < .12 and role != "smart": o.update(p=0, fl=0, x=1); return o
    if role == "k14230":
        if r < .25: o.update(p=3, fl=3, x=1)
        else: o.update(p=3, fl=1, x=1)
    elif role == "k9141": o.update(p=1, fl=rng.choice([0, 0, 0, 3]), tgt=0x33, x=1)
    elif role == "mb1": o.update(p=7, fl=0, x=1)
    else: o.update(**rng.choice([dict(p=9, fl=0, x=1), dict(p=4, fl=0, x=1), dict(p=3, fl=0, x=1)]))
    return o
def traffic(rng, c):
    return rng.choice([dict(op="send", c=c, b=[0x21, 1]), dict(op="req", c=c, b=[0x21, 1]), dict(op="recv", c=c, w=60), dict(op="req", c=c, b=[0x22, 1])])
L1P = [1, 2, 4, 0x80]
def devices(rng, n, ka=.15):
    flags, masks, ops, roles = [0] * 4, [0] * 4, [], []
    for d in range(4): ops.append(dict(op="dnew"))
    for d in range(n):
        role = rng.choice(ROLES); m = 0xff if rng.random() < .8 else rng.choice([1, 0x7e])
        f, o = setup(rng, d, role, rng.random() < .7, rng.random() < ka, m)
        flags[d], masks[d] = f, m; ops = [dict(op="dev", d=d, flags=f, mask=m)] + ops + o; roles.append(role)
    return flags, masks, ops, roles
def gen_life(rng, n):
    """random histories of open/close/start/stop with failures"""
    out = []
    for i in range(n):
        nd = rng.choice([1, 2, 2]); flags, masks, ops, roles = devices(rng, nd)
        ops.append(dict(op="mark"))
        cs_ = {d: None for d in range(nd)}; nc = 0; used = 0
        for _ in range(rng.randint(4, 16)):
            d = rng.randrange(nd); r = rng.random()
            if r < .25:
                if rng.random() < .15: ops.append(dict(op="openrc", d=d, rc=rng.choice([-1, -6])))
                ops.append(dict(op="l2open", d=d, p=rng.choice(L1P[:2] if rng.random() < .8 else L1P)))
            elif r < .40: ops.append(dict(op="l2close", d=d))
            elif r < .70: ops.append(dict(op="adv", ms=200)); ops.append(start(rng, d, used % 6, roles[d], rng.random() < .3)); used += 1
            elif r < .85 and used: ops.append(dict(op="stop", c=rng.randrange(min(used, 6))))
            elif r < .95 and used: ops.append(traffic(rng, rng.randrange(min(used, 6))))
            else: ops.append(dict(op="adv", ms=rng.choice([5, 4000]))) ; ops.append(dict(op="l2timer"))
        if used > 6: continue
        for c in range(min(used, 6)): ops.append(dict(op="stop", c=c))
        for d in range(nd): ops.append(dict(op="l2close", d=d))
        ops.append(dict(op="live"))
        for d in range(nd):
            ops.append(dict(op="l2open", d=d, p=1)); ops.append(dict(op="l2close", d=d))
        out.append(dict(flags=flags, masks=masks, ops=ops))
    return out
def gen_nomem(rng, n):
    out = []
    for i in range(n):
        flags, masks, ops, roles = devices(rng, 1); masks[0] |= 3
        for o in ops:
            if o["op"] == "dev": o["mask"] = masks[0]
        ops += [dict(op="mark"), dict(op="failat", n=1), dict(op="l2open", d=0, p=1, nomem=1), dict(op="failat", n=0), dict(op="live"), dict(op="l2open", d=0, p=rng.choice([1, 2])),
                dict(start(rng, 0, 0, roles[0])), dict(op="stop", c=0), dict(op="l2close", d=0), dict(op="live")]
        out.append(dict(flags=flags, masks=masks, ops=ops))
    return out
def gen_keep(rng, n):
    """idle times around the keepalive interval on one to three connections"""
    out = []
    for i in range(n):
        nd = rng.choice([1, 1, 2, 3]); flags, masks, ops, roles = devices(rng, nd, .2)
        for d in range(nd):
            masks[d] = 0xff
            ops = [dict(o, mask=0xff) if o["op"] == "dev" and o["d"] == d else o for o in ops]
            ops.append(dict(op="l2open", d=d, p=2)); ops.append(start(rng, d, d, roles[d]))
            if rng.random() < .3: ops.append(dict(op="adv", ms=rng.choice([100, 1500, 3300])))
        for _ in range(rng.randint(2, 8)):
            r = rng.random()
            if r < .75:
                ops.append(dict(op="adv", ms=rng.choice([20, 1000, 1700, 3000, 3200, 3328, 3330, 3333, 3334, 3338, 3400, 5000, 7000, 60000])))
                if rng.random() < .15: ops.append(dict(op="sendrc", d=rng.randrange(nd), rc=-1))
                ops.append(dict(op=rng.choice(["l2timer", "tick"])))
                if rng.random() < .3: ops.append(dict(op="l2timer"))
            elif r < .93:
                if rng.random() < .2: ops.append(dict(op="sendrc", d=rng.randrange(nd), rc=-1))
                ops.append(traffic(rng, rng.randrange(nd)))
            elif r < .97: ops.append(dict(op="stop", c=rng.randrange(nd)))
            else:
                ops.append(dict(op="end")); ops.append(dict(op="adv", ms=9000)); ops.append(dict(op="tick", force=1)); ops.append(dict(op="l2timer")); break
        out.append(dict(flags=flags, masks=masks, ops=ops))
    return out
def gen_upkeep(rng, n):
    """ticks delivered inside driver calls, ticks in their own thread racing API calls, init/end cycles"""
    out = []
    for i in range(n):
        nd = rng.choice([1, 2, 2, 3]); flags, masks, ops, roles = devices(rng, nd, .05)
        started = []
        for d in range(nd):
            masks[d] = 0xff
            ops = [dict(o, mask=0xff) if o["op"] == "dev" and o["d"] == d else o for o in ops]
            ops.append(dict(op="l2open", d=d, p=2))
            if d < nd - 1 or rng.random() < .6: ops.append(dict(start(rng, d, d, roles[d]))); started.append(d)
        free = [d for d in range(nd) if d not in started]
        for _ in range(rng.randint(1, 3)):
            ops.append(dict(op="adv", ms=rng.choice([100, 3400, 4000, 9000])))
            k = rng.random()
            if k < .45:
                d = rng.randrange(nd)
                ops.append(dict(op="nested", d=d, v=rng.choice([1, 2, 4, 8, 16, 31, 31]), skip=rng.choice([0, 0, 1, 3]), n=rng.choice([1, 2, 5])))
                r = rng.random()
                if d in started:
                    if r < .4: ops.append(dict(op="stop", c=d)); started.remove(d); free.append(d)
                    elif r < .6: ops.append(dict(op=rng.choice(["l2timer", "tick"])))
                    elif r < .9: ops.append(traffic(rng, d))
                    else: ops.append(dict(op="l2close", d=d))
                else:
                    if r < .7:
                        o = start(rng, d, d, roles[d], rng.random() < .3); ops.append(o)
                        if o["x"]: started.append(d); free.remove(d)
                    else: ops.append(dict(op="l2close", d=d)); ops.append(dict(op="l2open", d=d, p=2))
                ops.append(dict(op="nested", d=d, v=0))
            elif k < .85:
                ops.append(dict(op="race"))
                r = rng.random(); d = rng.randrange(nd)
                if r < .55 and started:
                    c = rng.choice(started); ops.append(dict(op="stop", c=c)); started.remove(c); free.append(c)
                elif r < .65: ops.append(dict(op=rng.choice(["l2timer", "tick"])))
                elif r < .75: ops.append(dict(op="l2close", d=d)); ops.append(dict(op="raceend")); ops.append(dict(op="l2open", d=d, p=2))
                elif r < .85 and free:
                    d = rng.choice(free); o = start(rng, d, d, roles[d]); ops.append(o)
                    if o["x"]: started.append(d); free.remove(d)
                else:
                    ops.append(dict(op="end")); ops.append(dict(op="raceend")); ops.append(dict(op="adv", ms=9000)); ops.append(dict(op="tick", force=1)); break
                ops.append(dict(op="raceend"))
            else:
                for c in list(started): ops.append(dict(op="stop", c=c))
                for d in range(nd): ops.append(dict(op="l2close", d=d))
                for _ in range(rng.randint(1, 2)):
                    ops.append(dict(op="end")); ops.append(dict(op="tick", force=1)); ops.append(dict(op="ini"))
                    if rng.random() < .5: ops.append(dict(op="ini"))
                started = []; free = list(range(nd))
                for d in range(nd): ops.append(dict(op="l2open", d=d, p=2)); ops.append(dict(start(rng, d, d, roles[d]))); started.append(d)
                free = []
                ops.append(dict(op="adv", ms=4000)); ops.append(dict(op="tick"))
        out.append(dict(flags=flags, masks=masks, ops=ops))
    return out
