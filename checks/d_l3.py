"""Scenarios for application-layer sessions (spec/L3)."""
from vlib import norm
from d_iso14230 import F
CALL = dict(op="", h=0, c=0, b=[], w=0, cbh=7, name="", up="", msrc=0, mdest=0)
BASE = 3 | F["AUTO"] | F["NOTTY"]; SMART = BASE | F["FRAME"] | F["CK"] | F["STRIP"]
def trace(s, evs):
    skip = True; cut = []
    for e in evs:          # the connections are opened before the traced part
        if e["e"] == "call" and s["ops"][e["i"]]["op"] == "mark": skip = False
        if not skip or e["e"] in ("crash", "hang"): cut.append(e)
    ev = norm(s, cut, CALL, keep=("in", "ret", "tx", "call", "rt0", "rt1"))
    for e in ev:
        if e["e"] == "call": e["c"]["up"] = e["c"]["name"].upper()
    return dict(conns=s["conns"], ev=ev)
def rb(rng, n): return [rng.randrange(256) for _ in range(n)]
PIDS = [0, 1, 2, 3, 4, 5, 6, 0xb, 0xc, 0xd, 0xe, 0x10, 0x11, 0x13, 0x14, 0x1b, 0x1c, 0x1d, 0x1e, 0x1f, 0x20, 0x21, 0x40, 0x55, 0x58, 0x59, 0x60]
def jlen(m, p):
    """lengths used to build plausible responses (the specification decides)"""
    if m == 0x41: return 2 + (4 if p % 32 == 0 or p == 1 else 2 if p in (3, 0xc, 0x10, 0x1f) or 0x14 <= p <= 0x1b else 1)
    if m == 0x42: return 3 + (4 if p % 32 == 0 else 2 if p in (2, 3, 0xc, 0x10, 0x1f) or 0x14 <= p <= 0x1b else 1)
    if m == 0x45: return 7 if p % 32 == 0 else 4 if p <= 4 else 6
    if m == 0x49: return 7 if p % 32 == 0 or p % 2 == 0 else 3
    return 1 if m == 0x44 else 7
def jmsg(rng, m=None):
    m = m or rng.choice([0x41] * 4 + [0x42, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x49, 0x49]); p = rng.choice(PIDS) if rng.random() < .8 else rng.randrange(256)
    return ([m, p] + rb(rng, 8))[:jlen(m, p)]
def pay(rng):
    r = rng.random()
    if r < .6: return jmsg(rng)
    if r < .75: return [0x7f, rng.choice([1, 9, 0x21]), rng.choice([0x10, 0x11, 0x12])]
    m = rb(rng, rng.randint(1, 7)); m[0] = 0x40 | (m[0] & 0x3e)
    return m
def devop(d, kind, fl): return dict(op="dev", d=d, flags=fl)
def mkconns(rng, n, kinds):
    ops, conns = [], []
    for d in range(n): ops.append(dict(op="dnew"))
    for d in range(n):
        kind = rng.choice(kinds); tgt = rng.choice([0x10, 0x33, rng.randrange(1, 128)]); src = rng.choice([0xf1, rng.randrange(1, 256)]); ka = False; kb = []; p = 2
        if kind == "j":
            fl = SMART; p = rng.choice([4, 8])
            if rng.random() < .15: fl |= F["KA"]; ka = True
            ops += [devop(d, kind, fl), dict(op="l2open", d=d, p=p), dict(op="start", c=d, d=d, p=4, fl=0, br=10400, tgt=tgt, src=src)]
        elif kind == "r":
            fl = BASE
            if rng.random() < .15: fl |= F["KA"]; ka = True
            ops += [devop(d, kind, fl), dict(op="l2open", d=d, p=2), dict(op="start", c=d, d=d, p=0, fl=0, br=10400, tgt=tgt, src=src)]
        else:
            kb = rng.choice([[1, 0x8a], [1, 0x8a], [0x6f, 0x8f], [1, 0x8b], [9, 0x8a], [1, 0x0a]]); ka = True
            ops += [devop(d, kind, SMART | F["SLOWI"]), dict(op="l2open", d=d, p=2), dict(op="init", d=d, rc=0, r=[(10, kb)]),
                    dict(op="start", c=d, d=d, p=3, fl=0, br=10400, tgt=tgt, src=src)]
        conns.append(dict(d=d, kind=kind, tgt=tgt, src=src, kb=kb, ka=ka, proto=p))
    ops.append(dict(op="mark"))
    return ops, conns
def frame(rng, cn, p, src=None):
    if cn["kind"] == "r": return p
    a = rng.choice([cn["tgt"], 0x10, 0x18]) if cn["kind"] == "j" else cn["tgt"]
    h = [rng.choice([0x48, 0x41])] if cn["kind"] == "j" else [0x80 + len(p)]
    return h + [cn["src"] if cn["kind"] == "k" else rng.choice([cn["src"], 0x6b]), a] + p
def answers(rng, cn, first=None):
    if rng.random() < .08: return [(10, "E%d" % rng.choice([-16, -1]))]
    if cn["kind"] == "r":
        p = first or pay(rng)
        if rng.random() < .3 and len(p) > 1: k = rng.randrange(1, len(p)); return [(10, p[:k]), (5, p[k:])]
        return [(10, p)] if rng.random() < .9 else []
    n = rng.choice([0, 1, 1, 1, 2, 3]); out = []
    for i in range(n): out.append((rng.choice([5, 20, 40]), frame(rng, cn, first if i == 0 and first else pay(rng))))
    return out
PROBE = lambda rng: [0x41, 0] + rb(rng, 4)
def name(rng):
    n = rng.choice(["SAEJ1979"] * 6 + ["VAG", "VAG", "ISO14230", "ISO14230", "SAEJ1978", "NOSUCH", "SAE", "J1979"])
    return rng.choice([n, n.lower(), n.capitalize(), "".join(rng.choice([x, x.lower()]) for x in n)])
def start(rng, h, c, cn, nm=None, ok=.8):
    nm = nm or name(rng); r = rng.random()
    a = answers(rng, cn, PROBE(rng)) if r < ok else answers(rng, cn, [0x7f, 1, 0x11]) if r < ok + .08 else answers(rng, cn)
    ops = [dict(op="turn", d=cn["d"], r=a)] if nm.upper() == "SAEJ1979" else []
    if ops and rng.random() < .04: ops = [dict(op="sendrc", d=cn["d"], rc=-1)]
    return ops + [dict(op="l3start", h=h, c=c, name=nm)]
def use(rng, h, cn, timerprob=0):
    x = rng.random(); o = dict(h=h)
    if rng.random() < .3: o["msrc"] = rng.randrange(1, 256)
    if rng.random() < .2 and cn["kind"] == "k": o["mdest"] = rng.randrange(1, 256)
    p = rng.choice([[1, rng.choice(PIDS)], [3], [9, 2], [2, 2, 0], rb(rng, rng.randint(1, 7))])
    if x < .35: return [dict(op="turn", d=cn["d"], r=answers(rng, cn)), dict(op="l3req", b=p, **o)]
    if x < .5 and rng.random() < .1: return [dict(op="sendrc", d=cn["d"], rc=-1), dict(op="l3send", b=p, **o)]
    w = rng.choice([0, 20, 100, 300])
    if x < .7: return [dict(op="turn", d=cn["d"], r=answers(rng, cn)), dict(op="l3send", b=p, **o), dict(op="l3recv", h=h, w=w, cbh=rng.randint(1, 99)), dict(op="adv", ms=300), dict(op="l3recv", h=h, w=300)]
    return [dict(op="push", d=cn["d"], r=answers(rng, cn)), dict(op="l3recv", h=h, w=w, cbh=rng.randint(1, 99)), dict(op="adv", ms=300), dict(op="l3recv", h=h, w=200)]
def gen_life(rng, n):
    out = []
    for i in range(n):
        nd = rng.choice([1, 2, 2, 3]); ops, conns = mkconns(rng, nd, ["j", "j", "k", "k", "r"]); live = {}
        if rng.random() < .1:      # a failed start leaves nothing behind
            ops.append(dict(op="turn", d=0, r=[(10, frame(rng, conns[0], [0x7f, 1, 0x11]))])); ops += [dict(op="l3start", h=0, c=0, name="SAEJ1979"), dict(op="live"), dict(op="l3start", h=0, c=0, name="NOSUCH"), dict(op="live")]
        for k in range(rng.randint(3, 12)):
            r = rng.random()
            if r < .3 or not live:
                h = rng.randrange(8)
                if h in live: continue
                c = rng.randrange(nd); ops += start(rng, h, c, conns[c]); live[h] = c     # may fail: later uses are no-ops then
            elif r < .42: h = rng.choice(list(live)); ops.append(dict(op="l3stop", h=h)); del live[h]
            elif r < .6:
                ops.append(dict(op="adv", ms=rng.choice([100, 2000, 3300, 3600, 5000])))
                for cn in conns: ops.append(dict(op="turn", d=cn["d"], r=answers(rng, cn, PROBE(rng)) if rng.random() < .8 else []))
                ops.append(dict(op="l3timer")); ops.append(dict(op="mflags"))
                ops.pop()
                ops.append(dict(op="drain"))
            else: h = rng.choice(list(live)); ops += use(rng, h, conns[live[h]])
        if rng.random() < .4: ops += [dict(op="l3stop", h=h) for h in live] + [dict(op="live")]     # nothing is left of the sessions
        out.append(dict(ops=ops, conns=conns))
    return out
def stream(rng):
    """bursts that carry J1979 messages split and joined in any way, sometimes with bytes that fit no mode"""
    data = []
    for _ in range(rng.choice([1, 1, 2, 3, 5])): data += jmsg(rng) if rng.random() < .9 else [rng.randrange(256)]
    if rng.random() < .25: data = data[:rng.randint(1, len(data))]
    out = []
    while data: k = rng.randint(1, len(data)) if rng.random() < .6 else len(data); out.append(data[:k]); data = data[k:]
    return out
def gen_j1979(rng, n):
    out = []
    for i in range(n):
        kind = rng.choice(["r", "r", "j", "k"]); ops, conns = mkconns(rng, rng.choice([1, 1, 2]), [kind]); cn = conns[0]
        ops += start(rng, 0, 0, cn, "SAEJ1979", .93)
        for k in range(rng.randint(2, 8)):
            r = rng.random()
            if kind == "r" and r < .6:
                bs = stream(rng); t = 0; w = rng.choice([0, 50, 100, 200])
                if rng.random() < .03: ops += [dict(op="push", d=0, r=[(5, [0x43, 1])]), dict(op="adv", ms=50), dict(op="l3recv", h=0, w=50)]; bs = [[0x44] * rng.choice([1021, 1022, 1023, 1024])]
                if rng.random() < .5:
                    for b in bs: ops += [dict(op="push", d=0, r=[(rng.choice([1, 20, 60]), b)]), dict(op="adv", ms=rng.choice([0, 0, 100])), dict(op="l3recv", h=0, w=w)]
                else: ops += [dict(op="push", d=0, r=[(rng.choice([1, 20, 60]), b) for b in bs]), dict(op="l3recv", h=0, w=w)]
                for _ in range(rng.randint(0, 3)): ops += [dict(op="adv", ms=rng.choice([0, 200])), dict(op="l3recv", h=0, w=rng.choice([0, 50, 300]))]
            elif r < .8:
                ops.append(dict(op="adv", ms=rng.choice([100, 1700, 3300, 3490, 3510, 3600, 5000])))
                for x in conns: ops.append(dict(op="turn", d=x["d"], r=answers(rng, x, PROBE(rng)) if rng.random() < .8 else []))
                ops += [dict(op="l3timer"), dict(op="drain")]
            else: ops += use(rng, 0, cn)
            if k == 2 and rng.random() < .5: ops += start(rng, 1, len(conns) - 1, conns[-1], "SAEJ1979", .93)
        if rng.random() < .4: ops += [dict(op="l3stop", h=0), dict(op="l3stop", h=1), dict(op="live")]
        out.append(dict(ops=ops, conns=conns))
    return out
def gen_multi(rng, n):
    """several idle sessions: upkeep serves exactly the live ones that are due"""
    out = []
    for i in range(n):
        nd = rng.choice([2, 3, 4]); ops, conns = mkconns(rng, nd, ["j", "j", "r", "k"]); live = []
        for h in range(rng.randint(2, 6)):
            c = rng.randrange(nd); ops += start(rng, h, c, conns[c], rng.choice(["SAEJ1979"] * 5 + ["ISO14230"]), 1.0); live.append((h, c))
            if rng.random() < .3: ops.append(dict(op="adv", ms=rng.choice([500, 2000])))
        for k in range(rng.randint(2, 5)):
            r = rng.random()
            if r < .4 and live: x = live.pop(rng.randrange(len(live))); ops.append(dict(op="l3stop", h=x[0]))
            elif r < .6 and live: h, c = rng.choice(live); ops += use(rng, h, conns[c])
            ops.append(dict(op="adv", ms=rng.choice([1500, 3300, 3600, 3600, 5000])))
            for h, c in live: ops.append(dict(op="turn", d=conns[c]["d"], r=answers(rng, conns[c], PROBE(rng)) if rng.random() < .8 else []))
            ops += [dict(op="l3timer"), dict(op="drain")]
            for h, c in live: ops.append(dict(op="l3req", h=h, b=[1, rng.randrange(256)]))
            if rng.random() < .5: ops.append(dict(op="adv", ms=600)); ops += [dict(op="l3timer"), dict(op="drain")]
        out.append(dict(ops=ops, conns=conns))
    return out
def gen_race(rng, n):
    """a session is stopped while a round of upkeep is under way in the timer's thread"""
    out = []
    for i in range(n):
        nd = rng.choice([1, 2, 2, 3]); ops, conns = mkconns(rng, nd, ["j"]); live = []
        for h in range(rng.choice([1, 2, 2, 3, 4])):
            c = rng.randrange(nd); ops += start(rng, h, c, conns[c], "SAEJ1979", 1.0); live.append((h, c))
        for k in range(rng.randint(1, 3)):
            ops.append(dict(op="adv", ms=rng.choice([1500, 3600, 3600, 5000])))
            for h, c in live: ops.append(dict(op="turn", d=conns[c]["d"], r=answers(rng, conns[c], PROBE(rng)) if rng.random() < .7 else []))
            ops.append(dict(op="race"))
            if live and rng.random() < .85: x = live.pop(rng.randrange(len(live))); ops.append(dict(op="l3stop", h=x[0]))
            ops += [dict(op="raceend"), dict(op="drain")]
            for h, c in live: ops.append(dict(op="l3req", h=h, b=[1, rng.randrange(256)]))
        out.append(dict(ops=ops, conns=conns))
    return out
def gen_due(rng, n):
    """what counts as traffic: between two rounds of upkeep the session sees exactly one kind of event, tried (also in vain) at a time that decides whether the next probe is due"""
    out = []
    for i in range(n):
        kind = rng.choice(["j", "j", "r"]); ops, conns = mkconns(rng, 1, [kind]); cn = conns[0]
        ops += start(rng, 0, 0, cn, "SAEJ1979", 1.0)
        for k in range(rng.randint(2, 5)):
            a = rng.choice([500, 1800, 2500, 3200]); b = rng.choice([400, 900, 1500, 2500, 3300])
            r = rng.choice(["sendfail", "sendfail", "reqfail", "big", "noanswer", "quiet", "err", "sent", "got", "req"]); o = dict(h=0)
            ops.append(dict(op="adv", ms=a)); p = [1, rng.choice(PIDS)]; big = [1] * rng.choice([1020, 1021])
            for _ in range(rng.choice([1, 1, 2, 3])):
                if r == "sendfail": ops += [dict(op="sendrc", d=0, rc=rng.choice([-1, -16])), dict(op="l3send", b=p, **o)]
                elif r == "reqfail": ops += [dict(op="sendrc", d=0, rc=-1), dict(op="l3req", b=p, **o)]
                elif r == "big" and kind == "j": ops += [dict(op="sendrc", d=0, rc=-1), dict(op="l3send", b=rb(rng, 7), **o)]
                elif r == "noanswer": ops += [dict(op="turn", d=0, r=[]), dict(op="l3req", b=p, **o)]
                elif r == "quiet": ops.append(dict(op="l3recv", h=0, w=rng.choice([0, 100]), cbh=3))
                elif r == "err": ops += [dict(op="push", d=0, r=[(5, "E-16")]), dict(op="l3recv", h=0, w=50, cbh=3)]
                elif r == "sent": ops += [dict(op="turn", d=0, r=[]), dict(op="l3send", b=p, **o)]
                elif r == "got": ops += [dict(op="push", d=0, r=[(5, frame(rng, cn, jmsg(rng)))]), dict(op="l3recv", h=0, w=100, cbh=3)]
                else: ops += [dict(op="turn", d=0, r=[(10, frame(rng, cn, jmsg(rng)))]), dict(op="l3req", b=p, **o)]
            ops += [dict(op="adv", ms=b), dict(op="turn", d=0, r=answers(rng, cn, PROBE(rng)) if rng.random() < .8 else []), dict(op="l3timer"), dict(op="drain")]
        out.append(dict(ops=ops, conns=conns))
    return out
