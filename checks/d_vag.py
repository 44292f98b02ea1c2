"""Scenarios for KWP1281 (spec/Vag)."""
from vlib import norm
from d_iso14230 import F
CALL = dict(op="", fl=0, br=10400, tgt=0, src=0, b=[], w=0, mtype=0)
TTY = 3; PLAIN = 3 | F["AUTO"] | F["NOTTY"]; SMART = PLAIN | F["FRAME"]
IFACES = [TTY, TTY, PLAIN, PLAIN, TTY | F["SLOWI"], PLAIN | F["SLOWI"], TTY | F["KA"], SMART, SMART | F["SLOWI"]]
def trace(s, evs):
    return dict(flags=s["flags"], ev=norm(s, evs, CALL, merge_tx=0, drop=("l0open", "l0close", "wm")))
def blk(t, d=(), s=0, l=None, x=None):
    o = dict(op="kwb", d=0, b=[t] + list(d))
    if s: o["s"] = s
    if l is not None: o["l"] = l
    if x is not None: o["x"] = x
    return o
def rb(rng, n=None):
    n = rng.choice([0, 1, 2, 3, 8, 8, 12, 12]) if n is None else n
    return [rng.randrange(256) for _ in range(n)]
def telegram(rng, out, bad):
    """what the ECU sends as one answer"""
    r = rng.random()
    if r < .12: out.append(blk(9)); return
    if r < .2: out.append(blk(10, rb(rng, rng.choice([0, 1, 1, 2])))); return
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.random(); t = rng.choice([0xf6, 0xfc, 0xe7, 0xf5, rng.randrange(11, 256)])
        d = rb(rng, rng.choice([252, 251, 200]) if rng.random() < .02 else None)
        if bad and k < .12: out.append(blk(t, d, s=rng.choice([1, 2, 254, 128])))
        elif bad and k < .2: out.append(blk(t, d, x=rng.choice([0, 2, 0xfc, 0x13])))
        elif bad and k < .24: out.append(blk(t, d, l=rng.choice([0, 1, 2, 3, max(0, len(d) + 2), len(d) + 4])))
        elif bad and k < .32: out.append(dict(blk(10, rb(rng, 1)), _na=1))
        out.append(blk(t, d))
    out.append(blk(9))
def gen(rng, n):
    out = []
    for i in range(n):
        fl = rng.choice(IFACES); tgt = rng.choice([1, 2, 0x17, 0x10, rng.randrange(128)])
        ops = [dict(op="dnew"), dict(op="dev", d=0, flags=fl), dict(op="mark"), dict(op="l2open", d=0, p=1), dict(op="kw", d=0, g=rng.choice([1, 2, 5, 20, 50, 55]))]
        mode = rng.random(); nf = 0; bad = mode > .45
        blks = []
        if mode > .6:
            nf = rng.choice([1, 1, 2, 3, 4, 8])
            base = rng.choice([0, 1, 5, 20, 60]) ; m = rng.choice([1, 2, 3, 1, 2])
            for k in range(nf): ops.append(dict(op="kwf", d=0, n=base + (k if rng.random() < .6 else rng.randrange(40)), mode=m if rng.random() < .6 else rng.choice([1, 2, 3])))
        if rng.random() < .1 and bad:      # refusals without end
            telegram(rng, blks, False)
            for k in range(rng.choice([3, 4, 5, 6, 7])): blks.append(blk(0xf6, rb(rng, 2), s=rng.choice([1, 2])))
        for k in range(rng.randint(1, 5)): telegram(rng, blks, bad and k > 0 or mode > .8)
        kb = rng.choice([[1, 0x8a], [1, 0x8a], rb(rng, 2)])
        r = rng.random()
        init = [(rng.choice([5, 20, 50]), [kb[0]]), (rng.choice([1, 10, 20]), [kb[1]])]
        if r < .04: init = init[:rng.randrange(2)]
        elif r < .07: init = [(rng.choice([5, 60]), [kb[0]]), (rng.choice([10, 30]), [kb[1]])]
        elif r < .10: init = rng.choice([[(5, "E-16")], [(5, [1]), (5, "E-1")]])
        ops.append(dict(op="init", d=0, rc=rng.choice([-1, -16]) if rng.random() < .03 else 0, r=init))
        ok = r >= .10
        calls = []
        br = rng.choice([10400, 9600, 0])
        for k in range(rng.randint(2, 7)):
            r = rng.random(); ln = rng.choice([0, 0, 1, 2, 4, 8, 12]) if rng.random() < .97 else rng.choice([251, 252, 253, 256, 300])
            if rng.random() < .05: calls.append(dict(op="sendrc", d=0, rc=rng.choice([0, 0, -1])))
            if r < .1: calls.append(dict(op="recv", c=0, w=100))
            elif r < .3: calls += [dict(op="adv", ms=rng.choice([0, 300, 700, 3000])), dict(op="l2timer")]
            elif r < .45: calls += [dict(op="send", c=0, b=rb(rng, ln), mtype=rng.choice([7, 9, 5, 0x29])), dict(op="recv", c=0, w=100)]
            else: calls.append(dict(op="req", c=0, b=rb(rng, ln), mtype=rng.choice([7, 9, 5, 0x29, rng.randrange(256)])))
        ops += blks + [dict(op="start", c=0, p=6, fl=0, br=br, tgt=tgt, src=0xf1)]
        if not ok: calls = []
        if rng.random() < .3: calls = [dict(op="recv", c=0, w=0)] + calls
        ops += calls + [dict(op="stop", c=0), dict(op="l2close", d=0), dict(op="live")]
        out.append(dict(flags=fl, ops=ops))
    # refused requests: the ECU answers NO_ACK with the counter of the refused block
    for i in range(n // 8):
        fl = rng.choice(IFACES); n1 = rng.choice([1, 2, 3, 4, 5, 6]); seq0 = 0
        ops = [dict(op="dnew"), dict(op="dev", d=0, flags=fl), dict(op="mark"), dict(op="l2open", d=0, p=1), dict(op="kw", d=0, g=2), dict(op="init", d=0, rc=0, r=[(5, [1]), (5, [0x8a])])]
        big = rng.random() < .3            # move the counters close to their wrap-around
        m = 0
        if big and fl & F["FRAME"]:
            seq = rng.choice([245, 247, 249, 251, 253]); ops.append(blk(9, s=seq - 1)); last = (seq + 1) & 255
        elif big and i % 4 == 0:
            k = rng.choice([122, 123, 124, 125, 126])
            for _ in range(k): ops.append(blk(0xf6, []))
            ops.append(blk(9)); last = (2 * k + 2) & 255
        else: ops.append(blk(9)); last = 2
        two = rng.random() < .4            # refused acknowledge inside the answer
        if two: ops.append(blk(0xfc, rb(rng, 2))); last = (last + 2) & 255
        for _ in range(n1): ops.append(blk(10, [(last if rng.random() < .93 else rng.randrange(256))] if rng.random() < .95 else [])); last = (last + 2) & 255
        if two and rng.random() < .6:      # more refusals, with an answer block in between
            ops.append(blk(0xfc, rb(rng, 1))); last = (last + 2) & 255
            for _ in range(rng.choice([1, 2, 3, 4, 5])): ops.append(blk(10, [last])); last = (last + 2) & 255
        ops += [blk(0xfc, rb(rng, 2)), blk(9)]
        ops += [dict(op="start", c=0, p=6, fl=0, br=10400, tgt=1, src=0xf1)]
        ops += [dict(op="req", c=0, b=rb(rng, 2), mtype=7)] + ([dict(op="req", c=0, b=rb(rng, 1), mtype=8)] if rng.random() < .5 else [])
        ops += [dict(op="stop", c=0), dict(op="l2close", d=0), dict(op="live")]
        out.append(dict(flags=fl, ops=ops))
    return out
