"""Scenarios for requests about a connection (spec/Opts): C38."""
from vlib import norm
import d_link
CALL = dict(op="", cmd=0, v=0, b=[], p=0, kb=[0, 0], phys=0)
def trace(s, evs): return dict(flags=s["flags"], mask=s["mask"], drc=s["drc"], ev=norm(s, evs, CALL, keep=("speed", "wm", "flush", "ioctl", "ret", "call")))
#        protocol  start arguments                       key bytes and address learnt
STARTS = {
 "k14230": [dict(p=3, fl=1, kb=[0xef, 0x8f], phys=0x10), dict(p=3, fl=3, kb=[0, 0], phys=0)],
 "k9141": [dict(p=1, fl=0, tgt=0x33, kb=[8, 8], phys=0)],
 "mb1": [dict(p=7, fl=0, kb=[0xc2, 0xcd], phys=0)],
 "smart": [dict(p=9, fl=0, kb=[0xd3, 0xb0], phys=0), dict(p=4, fl=0, kb=[0, 0], phys=0), dict(p=3, fl=0, kb=[0, 0], phys=0)]}
SPEED, FLUSH, WM = 0x2101, 0x2202, 0x2203
def gen(rng, n):
    out = []
    for _ in range(n):
        role = rng.choice(d_link.ROLES); mask = rng.choice([0xff, 0x82, 0x83, 0xd7, 0x8f]) | 0x82
        fl, ops = d_link.setup(rng, 0, role, True, False, mask)
        if role != "smart": fl |= rng.choice([0, 0, d_link.AUTO, d_link.NOTTY, d_link.AUTO | d_link.NOTTY])
        if rng.random() < .5: fl |= d_link.KA
        drc = [rng.choice([0, 0, -1, -22]), rng.choice([0, 0, -1, -16]), rng.choice([0, 0, -6, -3])]
        base = dict(op="dev", d=0, flags=fl, mask=mask, fev=1)
        ops = [dict(op="dnew")] + [base if o["op"] == "dev" else o for o in ops] + [dict(op="l2open", d=0, p=2)]
        for _ in range(rng.choice([1, 1, 2, 3])):
            if rng.random() < .1: ops.append(ioctl(rng))
            st = rng.choice(STARTS[role] + [dict(p=0, fl=0, kb=[0, 0], phys=0)]); st = dict(dict(op="start", c=0, d=0, br=10400, src=0xf1, tgt=0x10), **st)
            ops += [dict(op="adv", ms=400), st, dict(base, speedrc=drc[0], flushrc=drc[1], wmrc=drc[2])]
            for _ in range(rng.randint(2, 9)): ops.append(ioctl(rng))
            ops += [base, dict(op="stop", c=0)]
        out.append(dict(flags=fl, mask=mask, drc=drc, ops=ops))
    return out
def ioctl(rng):
    cmd = rng.choice([SPEED, SPEED, FLUSH, FLUSH, WM, WM, 0x2010, 0x2011, 0x2021, 0x2023, 0x2023, 0x2102, 0x9999, 0x2020])
    o = dict(op="l2ioctl", c=0, cmd=cmd)
    if cmd == SPEED: o["v"] = rng.choice([9600, 10400, 5, 360, 38400, rng.randint(100, 120000)])
    if cmd == WM: o["b"] = [rng.randrange(256) for _ in range(rng.choice([1, 2, 6, 12]))]
    return o
