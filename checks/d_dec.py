"""Scenarios for the decoders (spec/Decode)."""
from vlib import norm
from d_iso14230 import F
CALL = dict(op="", b=[], up="", bs=300, mtype=0, h=0)
SM = 3 | F["AUTO"] | F["NOTTY"] | F["FRAME"] | F["CK"] | F["STRIP"] | F["SLOWI"]
NAMES = ["SAEJ1979", "ISO14230", "VAG"]
PRE = [dict(op="dnew"), dict(op="dev", d=0, flags=SM), dict(op="l2open", d=0, p=2), dict(op="init", d=0, rc=0, r=[(10, [1, 0x8a])]), dict(op="start", c=0, d=0, p=3, fl=0, br=10400, tgt=0x10, src=0xf1),
       dict(op="turn", d=0, r=[(10, [0x86, 0xf1, 0x10, 0x41, 0, 1, 2, 3, 4])])] + [dict(op="l3start", h=i, c=0, name=n) for i, n in enumerate(NAMES)]
def trace(s, evs):
    keep = {i for i, o in enumerate(s["ops"]) if o["op"] in ("l3dec", "nrdec")}; out = []; on = False
    for e in evs:
        if e["e"] == "call": on = e["i"] in keep
        if on or e["e"] in ("crash", "hang"): out.append(e)
    ev = norm(s, out, CALL)
    for e in ev:
        if e["e"] == "call" and e["c"]["op"] == "l3dec": e["c"]["up"] = NAMES[e["c"]["h"]]
    return dict(ev=ev)
def rb(rng, n): return [rng.randrange(256) for _ in range(n)]
def gen(rng, n):
    ops = []
    def j(b, **k): ops.append(dict(op="l3dec", h=0, b=b, **k))
    def nr(b, **k): ops.append(dict(op="nrdec", b=b, **k))
    for m in list(range(1, 10)) + list(range(0x41, 0x4a)):
        for ln in range(0, 11): j(([m] + rb(rng, 10))[:ln])
    for m in range(256): j([m] + rb(rng, rng.randint(0, 8))); ops.append(dict(op="l3dec", h=1, b=[m] + rb(rng, rng.randint(0, 4))))
    for m in range(256): nr([m] + rb(rng, 3)); nr([m]); nr([0x7f, rng.choice([0x21, m]), m]); nr([0x7f, m, rng.choice([0x10, 0x78, m])])
    for m in (0x5a, 0x61, 0x7f): nr([m]); nr([m, 0x80]); nr([m, 0x21, 0xff])
    for t in range(256): ops.append(dict(op="l3dec", h=2, mtype=t, b=rb(rng, rng.choice([0, 1, 3, 5, 12]))))
    for d in range(0, 256, 5): j([rng.choice([0x43, 0x47]), d, rng.randrange(256), 0, rng.choice([0, 1]), d ^ 0xff, 0])
    for h in (0, 1, 2): ops.append(dict(op="l3dec", h=h, b=[], mtype=1))
    nr([])
    for _ in range(n):
        r = rng.random()
        bs = rng.choice([300, 300, 1, 2, 5, 15, 16, 17, 24, 40, 64, 80, 120, 200, 256])
        b = [rng.choice([0x41, 0x42, 0x43, 0x45, 0x47, 0x49, rng.randrange(256)])] + rb(rng, rng.choice([0, 1, 2, 3, 6, 7, 12, 40, 100]))
        if r < .5: j(b, bs=bs)
        elif r < .8: nr([rng.choice([0x7f, 0x7f, 0x5a, 0x61, rng.randrange(256)])] + rb(rng, rng.randint(0, 4)), bs=bs)
        else: ops.append(dict(op="l3dec", h=rng.choice([1, 2]), mtype=rng.choice([5, 6, 7, 8, 0xf6, 0xfc, rng.randrange(256)]), b=rb(rng, rng.choice([0, 3, 12, 60])), bs=bs))
    rng.shuffle(ops)
    return [dict(ops=PRE + ops[i:i + 15]) for i in range(0, len(ops), 15)]
