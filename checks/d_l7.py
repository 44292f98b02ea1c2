"""Scenarios for the D2 (spec/D2L7) and KWP71 (spec/K71) service layers."""
from vlib import norm
from d_iso14230 import F
import d_d2mb1, d_vag
from d_d2mb1 import rb, d2frame
L7 = dict(f="", ns=0, addr=0, n=0, reps=0)
def d2trace(s, evs):
    return dict(flags=s["flags"], kb=[], ev=norm(s, evs, dict(d_d2mb1.CALL, **L7), drop=("l0open", "l0close")))
def ktrace(s, evs):
    return dict(flags=s["flags"], ev=norm(s, evs, dict(d_vag.CALL, **L7), merge_tx=0, drop=("l0open", "l0close", "wm")))
def d2req(rng):
    k = rng.random(); a = rng.randrange(256)
    if k < .1: return dict(f="ping", n=4), [0xa1], []
    if k < .25: return dict(f="dtclist", n=rng.choice([0, 1, 3, 12, 16])), [0xae, 1], [1]
    if k < .4: return dict(f="cleardtc", n=4), [0xae, 1], [1]
    if k < .48: return dict(f="run", addr=a, n=4), [0xb2], [a]
    if k < .56:
        return dict(f="io", addr=a, reps=rng.choice([0, 1, 5, 255]), n=4), [0xb0], [a]
    ns = rng.choice([0, 0, 3, 4, 5, 6, 3, 4, 5, 6, rng.choice([1, 2, 7])]); n = rng.choice([0, 1, 2, 4, 8, 16, 57])
    addr = rng.choice([rng.randrange(65536), 0, 65535, 256 * rng.randrange(256), 0x1234]) if ns in (0, 4) else rng.randrange(256)
    if ns in (3, 5, 6) and rng.random() < .12: addr += 256 * rng.randrange(1, 256)
    sid = {0: 0xa7, 3: 0xa5, 4: 0xa6, 5: 0xb9, 6: 0xad}.get(ns, 0)
    e = [0, addr >> 8, addr & 255] if ns == 0 else [addr >> 8, addr & 255] if ns == 4 else [addr & 255]
    return dict(f="read", ns=ns, addr=addr, n=n), [sid], e
def d2pay(rng, c, sid, e):
    """payload of the answer"""
    k = rng.random(); p = [sid ^ 0x40] + list(e)
    if c["f"] == "read":
        p += rb(rng, c["n"] if c["ns"] == 0 else rng.choice([0, 1, 2, c["n"], 3, 8, 50]))
    elif c["f"] in ("dtclist", "cleardtc"): p += rb(rng, rng.choice([0, 0, 1, 1, 2, 3, 11, 12, 12, 12, 13]))
    elif c["f"] == "ping": p += rb(rng, rng.choice([0, 0, 1, 2, 4]))
    if k < .5: return p
    if k < .6: return [0x7f, sid, rng.choice([0x11, 0x21, 0x23])]
    if k < .68: p[0] ^= 1 << rng.randrange(8)
    elif k < .82 and len(p) > 1: p[rng.randrange(1, min(len(p), 4))] ^= 1 << rng.randrange(8)
    elif k < .9: p = p[:rng.randrange(1, len(p) + 1)]
    elif k < .95: p = p + rb(rng, rng.choice([1, 2]))
    return p[:60]
def d2ans(rng, fl, tgt, src, p, sid):
    k = rng.random(); g = lambda: rng.choice([1, 30, 500, 1090])
    if k < .04: return []
    if k < .07: return [(5, "E%d" % rng.choice([-16, -1, -18]))]
    if k < .10: return [(5, rb(rng, rng.randrange(1, 6)))]
    if k < .2: return [(g(), d2frame(rng, fl, tgt, src, [0x7e, sid, 0x23]))] * rng.choice([1, 2]) + [(g(), d2frame(rng, fl, tgt, src, p))]
    return [(g(), d2frame(rng, fl, tgt, src, p))]
def gen_d2(rng, n):
    out = []
    for i in range(n):
        fl = rng.choice([d_d2mb1.SM, d_d2mb1.SM | F["KA"]]); tgt = rng.choice([0x7a, 0x6e, 0x10, 0x51]); src = 0x13
        ops = [dict(op="dnew"), dict(op="dev", d=0, flags=fl), dict(op="mark"), dict(op="l2open", d=0, p=1), dict(op="init", d=0, rc=0, r=[]),
               dict(op="start", c=0, p=9, fl=0, br=10400, tgt=tgt, src=src)]
        for k in range(rng.randint(1, 5)):
            c, sid, e = d2req(rng); p = d2pay(rng, c, sid[0], e)
            if sid[0] and not (c["f"] == "read" and c["ns"] in (3, 5, 6) and c["addr"] > 255):
                t = d2ans(rng, fl, tgt, src, p, sid[0]); ops.append(dict(op="turn", d=0, r=t))
                listed = len(t) and not isinstance(t[-1][1], str) and len(t[-1][1]) > 6 and p[:2] == [0xee, 1]
                if c["f"] in ("dtclist", "cleardtc") and listed:
                    if len(p) == 14 and rng.random() < .6:
                        m = [0xee, 1] + rb(rng, rng.choice([1, 5, 12])); t.append((rng.choice([50, 900, 990, 1095]), d2frame(rng, fl, tgt, src, m)))
                    if c["f"] == "cleardtc" and len(p) > 2:
                        q = rng.random(); a = [0xef, 1] if q < .6 else rng.choice([[0xef], [0xef, 2], [0xef, 1, 0], [0x7f, 0xaf, 0x22], [0xee, 1], [0xaf, 1]])
                        ops.append(dict(op="turn", d=0, r=d2ans(rng, fl, tgt, src, a, 0xaf)))
            ops.append(dict(op="d2", c=0, **c))
            if rng.random() < .2: ops.append(dict(op="adv", ms=rng.choice([30, 1000])))
        ops += [dict(op="stop", c=0), dict(op="l2close", d=0), dict(op="live")]
        out.append(dict(flags=fl, ops=ops))
    return out
# ------------------------------------------------------------------ KWP71
def kreq(rng):
    k = rng.random()
    if k < .1: return dict(f="ping", n=4), 9, []
    if k < .3: return dict(f="dtclist", n=rng.choice([0, 1, 5, 10, 20])), 0xfc, rb(rng, rng.choice([1, 5, 5, 10, 10, 3]))
    if k < .5: return dict(f="cleardtc", n=4), 0xfc, rb(rng, rng.choice([1, 5, 10]))
    ns = rng.choice([0, 0, 1, 1, 2, 2, rng.choice([3, 5, 7])]); n = rng.choice([0, 1, 2, 2, 3, 4, 8, 16])
    addr = rng.randrange(65536) if ns != 2 or rng.random() < .15 else rng.randrange(256)
    return dict(f="read", ns=ns, addr=addr, n=n), {0: 0xfe, 1: 0xfd, 2: 0xfb}.get(ns, 0), rb(rng, 2 if ns == 2 else n)
def gen_k(rng, n):
    out = []; blk = d_vag.blk
    for i in range(n):
        fl = rng.choice(d_vag.IFACES); ops = [dict(op="dnew"), dict(op="dev", d=0, flags=fl), dict(op="mark"), dict(op="l2open", d=0, p=1), dict(op="kw", d=0, g=rng.choice([1, 2, 20])), dict(op="init", d=0, rc=0, r=[(5, [1]), (5, [0x8a])])]
        blks = [blk(0xf6, rb(rng, 3)), blk(9)]; calls = []
        if rng.random() < .1: blks = [blk(9)]
        for k in range(rng.randint(1, 5)):
            c, t, d = kreq(rng); q = rng.random()
            sends = t and not (c["f"] == "read" and c["ns"] == 2 and c["addr"] > 255)
            calls.append(dict(op="k71", c=0, **c))
            if rng.random() < .2: calls.append(dict(op="adv", ms=rng.choice([30, 400])))
            if not sends: continue
            if q < .06: blks.append(dict(blk(t, d), _none=1)); blks[-1] = blk(t, d, x=0) if not fl & F["FRAME"] else blk(t, d)
            if t == 9: blks.append(blk(rng.choice([9, 9, 10, 9]))) if rng.random() < .8 else blks.extend([blk(0xf6, rb(rng, 1)), blk(9)]); continue
            if t == 0xfc and rng.random() < .25: d = [0]
            if rng.random() < .12: t = rng.choice([0xfe, 0xfd, 0xfb, 0xfc, 0xf6, t ^ 1])
            if rng.random() < .12: d = rb(rng, rng.choice([0, 1, 2, 3, len(d) + 1]))
            if rng.random() < .1: blks.append(blk(rng.choice([9, 10]), rb(rng, rng.choice([0, 0, 1])))); continue
            blks.append(blk(t, d)); more = t == 0xfc and rng.random() < .3
            if more: blks.append(blk(0xfc, rb(rng, 5)))
            blks.append(blk(9))
            if c["f"] == "cleardtc" and t == 0xfc and d != [0] and d:
                blks.append(blk(rng.choice([9, 9, 9, 10]))) if rng.random() < .85 else blks.extend([blk(rng.choice([0xfc, 5]), rb(rng, 1)), blk(9)])
        ops += blks + [dict(op="start", c=0, p=6, fl=0, br=10400, tgt=1, src=0xf1)] + calls
        if rng.random() < .15: ops.insert(4, dict(op="kwf", d=0, n=rng.choice([20, 40, 60]) + rng.randrange(20), mode=rng.choice([1, 2, 3])))
        ops += [dict(op="stop", c=0), dict(op="l2close", d=0), dict(op="live")]
        out.append(dict(flags=fl, ops=ops))
    return out
