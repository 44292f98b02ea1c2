"""Scenarios for the car simulator (spec/CarSim)."""
from vlib import norm
CALL = dict(op="", h=0, f=0, p=0, b=[], n=300, type=1, addr=0x33)
CFG = ["DATAONLY", "NOL2CKSUM", "FRAMED", "FULLINIT"]; PR = ["P_9141", "P_14230", "P_J1850P", "P_J1850V", "P_RAW", "P_CAN"]
PN = dict(P_9141=1, P_14230=2, P_J1850V=4, P_J1850P=8, P_CAN=16, P_RAW=128)
def trace(s, evs): return dict(dbs=s["dbs"], ev=norm(s, evs, CALL))
def rb(rng, n): return [rng.randrange(256) for _ in range(n)]
def hexb(rng, v):
    return rng.choice(["0x%02X", "0x%02X", "0x%02x", "0x%X", "%02X", "%02x"]) % v
def tok(rng, e):
    k = e["k"]
    return hexb(rng, e["v"]) if k == "h" else {"r": "req%d", "p": "req%d+"}[k] % e["v"] if k in "rp" else {"c": "cks1", "s": "sin1", "w": "swt1"}[k]
def text(rng, db):
    """the database as a file"""
    nl = "\r\n" if rng.random() < .1 else "\n"
    def junk():
        r = rng.random()
        return "" if r < .6 else "# RP 0x01 0x02" + nl if r < .7 else nl if r < .8 else "# RQ 0x01 and some longer comment text here" + nl if r < .9 else "# padding 0123456" + rng.choice(["CFG FRAMED", "CFG FULLINIT", "", "CFG DATAONLY"])[: 19] + nl
    def sep(n): return " " if n > 100 or rng.random() < .9 else rng.choice(["  ", "\t", " \t "])
    out = ["# database" + nl]
    for i, e in enumerate(db["ent"]):
        for w in db["_at"].get(i, []): out.append("CFG " + w + nl)
        out.append(junk())
        out.append("RQ " + sep(len(e["rq"])).join("XXXX" if x < 0 else hexb(rng, x) for x in e["rq"]) + ("" if rng.random() < .9 else " ") + nl)
        for rp in e["rps"]:
            out.append(junk()); out.append("RP" + (" " if rp or rng.random() < .5 else "") + sep(len(rp)).join(tok(rng, x) for x in rp) + ("" if rng.random() < .9 else " ") + nl)
        out.append(junk())
    for w in db["_at"].get(len(db["ent"]), []): out.append("CFG " + w + nl)
    t = "".join(out)
    if rng.random() < .1: t = t.rstrip("\r\n")
    return t
def rp(rng, nreq):
    lo = max(1, nreq - 6) if nreq > 200 else 1
    out = []
    for _ in range(rng.choice([1, 2, 4, 7, 12]) if rng.random() < .95 else rng.choice([0, 0, 259, 260])):
        r = rng.random() if len(out) < 60 else 0
        if r < .7: out.append(dict(k="h", v=rng.randrange(256)))
        elif r < .8: out.append(dict(k="r", v=rng.randint(lo, max(1, nreq))))
        elif r < .86: out.append(dict(k="p", v=rng.randint(lo, max(1, nreq))))
        elif r < .92: out.append(dict(k="c", v=0))
        elif r < .96: out.append(dict(k="s", v=0))
        else: out.append(dict(k="w", v=0))
    if rng.random() < .5: out = out[:259] + [dict(k="c", v=0)]
    return out
def mkdb(rng):
    ent = []; base = rb(rng, 3)
    for i in range(rng.choice([1, 2, 4, 8])):
        n = rng.choice([1, 1, 2, 3, 3, 5, 8]); rq = (base[:rng.randint(0, min(n, 3))] + rb(rng, 8))[:n]
        if rng.random() < .1 and i == 0: rq = rng.choice([[0], [0x33]])
        if rng.random() < .04: rq = rb(rng, rng.choice([258, 259, 260]))
        rq = [-1 if rng.random() < .12 else x for x in rq]
        k = rng.choice([0, 1, 1, 1, 2, 3, 5]) if rng.random() < .98 else 300
        ent.append(dict(rq=rq, rps=[rp(rng, len(rq)) if k < 10 else [dict(k="h", v=j & 255), dict(k="h", v=j >> 8)] for j in range(k)]))
    cfg = [w for w in CFG if rng.random() < .25]
    if rng.random() < .4: cfg += rng.sample(PR, rng.choice([1, 1, 2]))
    rng.shuffle(cfg); at = {}; pos = 0
    for w in cfg: pos = rng.choice([pos, 0, len(ent)]) if rng.random() < .3 and pos == 0 else rng.randint(pos, len(ent)); at.setdefault(pos, []).append(w)
    order = [w for i in sorted(at) for w in at[i]]
    return dict(cfg=order, ent=ent, _at=at)
def gen(rng, n):
    out = []
    for i in range(n):
        dbs = [mkdb(rng) for _ in range(2)]; full = dbs + [dict(cfg=["MISSING"], ent=[], _at={})]
        ops = [dict(op="mark"), dict(op="snew", h=0)] + [dict(op="sdb", h=k, b=list(text(rng, d).encode())) for k, d in enumerate(dbs)]
        for k in range(rng.randint(1, 4)):
            u = rng.choice([0, 0, 1, 1, 2]) if rng.random() < .5 else rng.choice([0, 1]); d = full[u]
            r = [PN[w] for w in d["cfg"] if w in PN]; p = r[-1] if r and rng.random() < .85 else rng.choice([1, 2, 4, 8, 128])
            if p == 16: p = 1
            ops += [dict(op="suse", h=0, f=u), dict(op="sopen", h=0, p=p)]
            if u == 2 or r and r[-1] != p: continue
            busy = 0
            for j in range(rng.randint(1, 8)):
                if rng.random() < .08: ops.append(dict(op="sinit", h=0, type=rng.choice([1, 2, 2, 1, 3, 0]), addr=rng.choice([0x33, 0x33, 0x10, 0])))
                e = rng.choice(d["ent"]); b = [rng.randrange(256) if x < 0 else x for x in e["rq"]]
                q = rng.random()
                if q < .35: b = b + rb(rng, rng.choice([1, 1, 3]))
                elif q < .45: b = b[:rng.randrange(len(b) + 1)]
                elif q < .6: b = list(b); b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
                elif q < .64: b = rb(rng, rng.choice([1, 4, 260, 261, 300]))
                ops.append(dict(op="ssend", h=0, b=b))
                rounds = len(e["rps"]) + rng.choice([0, 1, 1, 2]) if rng.random() < .9 else rng.randrange(3)
                for _ in range(rounds):
                    if rng.random() < .3: ops.append(dict(op="adv", ms=rng.choice([1, 100, 250, 333, 499, 500, 501, 750, 777])))
                    ops.append(dict(op="srecv", h=0, n=rng.choice([300, 300, 300, 260, 1, 2, 5, 0]) if rng.random() < .4 else 300))
            ops.append(dict(op="sclose", h=0))
        ops += [dict(op="sclose", h=0), dict(op="sdel", h=0), dict(op="live")]
        out.append(dict(dbs=[dict(cfg=d["cfg"], ent=d["ent"]) for d in full], ops=ops))
    return out
