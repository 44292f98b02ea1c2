"""Scenarios for KWP-D2 (spec/D2) and MB1 (spec/Mb1)."""
from vlib import norm
from d_iso14230 import F
CALL = dict(op="", fl=0, br=10400, tgt=0, src=0, b=[], w=0, mdest=0, msrc=0)
TTY = 3; PLAIN = 3 | F["AUTO"] | F["NOTTY"]; FULL = PLAIN | F["FULL"] | F["CK"]; SM = FULL | F["FRAME"]
D2IF = [SM, SM, SM, SM | F["KA"], SM | F["KA"], TTY | F["FULL"] | F["CK"] | F["FRAME"], FULL, FULL | F["KA"], SM | F["P4"], SM | F["DATA"], PLAIN, TTY, PLAIN | F["FULL"], PLAIN | F["CK"] | F["FRAME"], FULL | F["SLOWI"] | F["FRAME"]]
def d2trace(s, evs):
    return dict(flags=s["flags"], wmrc=s["wmrc"], kb=s["kb"], ev=norm(s, evs, CALL, drop=("l0open", "l0close")))
def mbtrace(s, evs): return dict(flags=s["flags"], ev=norm(s, evs, CALL, drop=("l0open", "l0close", "wm")))
def rb(rng, n): return [rng.randrange(256) for _ in range(n)]
def d2frame(rng, fl, tgt, src, pay):
    f = [0x80 + len(pay) + 1, src, tgt] + pay
    return f + [sum(f) & 255]
def d2answer(rng, fl, tgt, src, sid):
    k = rng.random(); pay = [sid ^ 0x40 if rng.random() < .7 else rng.randrange(256)] + rb(rng, rng.choice([0, 1, 2, 5, 12]))
    if k < .08: return []
    if k < .16: return [(rng.choice([1, 30]), rb(rng, rng.randrange(1, 6)))]
    if k < .22: return [(5, "E%d" % rng.choice([-16, -1, -18]))]
    if k < .28: return [(5, rb(rng, rng.randint(5, 66 if fl & F["FRAME"] else 20)))]
    if k < .32: pay = pay[:1] + rb(rng, rng.choice([58, 61]))
    f = d2frame(rng, fl, tgt, src, pay)
    if not fl & F["FRAME"] and rng.random() < .5 and len(f) > 6: c = rng.randrange(1, len(f)); return [(10, f[:c]), (5, f[c:])]
    r = [(rng.choice([1, 30, 500, 1090]), f)]
    if fl & F["FRAME"]:
        busy = [d2frame(rng, fl, tgt, src, [0x7e, sid, 0x23])] * rng.choice([0, 0, 0, 1, 2, 4])
        nb = rng.choice([d2frame(rng, fl, tgt, src, x) for x in ([0x7e, sid ^ 1, 0x23], [0x7e, sid, 0x22], [0x7f, sid, 0x23], [0x7e, sid, 0x23, 0])])
        b = [(rng.choice([20, 900]), x) for x in busy]
        if rng.random() < .1: b.append((20, nb))
        if busy and rng.random() < .15: r = []
        r = b + r
    return r
def gen_d2(rng, n):
    out = []
    for i in range(n):
        fl = rng.choice(D2IF); tgt = rng.choice([0x7a, 0x6e, 0x10, 0x51, rng.randrange(256)]); src = rng.choice([0x13, 0x13, 0xf1, rng.randrange(1, 256)])
        able = fl & F["FULL"] and fl & F["CK"]
        wmrc = rng.choice([0] * 12 + [-1, -16]); kb = rng.choice([[], [0xd3, 0xb0], [0xd3, 0xb0], [0xd3, 0xb0], [0, 0]] + ([rng.choice([[8, 8], [0xd3 ^ 1 << rng.randrange(8), 0xb0], [0xd3, 0xb0 ^ 1 << rng.randrange(8)], [0xd3, 0xb1], [0xd2, 0xb0], [0, 0xb0], [0xd3, 0], [0xb0, 0xd3]])] if rng.random() < .5 else []))
        irc = rng.choice([0] * 15 + [-1, -16]); mode = rng.choice([0] * 8 + [1, 2, 3])
        d = dict(op="dev", d=0, flags=fl)
        if wmrc: d["wmrc"] = wmrc
        ini = dict(op="init", d=0, rc=irc, r=[])
        if kb: ini.update(kb1=kb[0], kb2=kb[1])
        ops = [dict(op="dnew"), d, dict(op="mark"), dict(op="l2open", d=0, p=rng.choice([1, 2])), ini,
               dict(op="start", c=0, p=9, fl=mode, br=rng.choice([10400, 0, 9600]), tgt=tgt, src=src)]
        good = able and mode == 0 and irc == 0 and kb in ([], [0, 0], [0xd3, 0xb0]) and (wmrc == 0 or not fl & F["KA"])
        if good:
            for k in range(rng.randint(1, 6)):
                if rng.random() < .3: ops.append(dict(op="adv", ms=rng.choice([0, 30, 1000, 4000])))
                ln = rng.choice([1, 1, 2, 3, 6, 12, 61, 62, 63, 0, 64, 126, 130, 200, 255, 256, 257, 300]) if rng.random() < .5 else rng.randint(1, 8)
                pay = rb(rng, ln); r = rng.random(); a = {}
                if rng.random() < .2: a["mdest"] = rng.randrange(1, 256)
                if rng.random() < .2: a["msrc"] = rng.randrange(1, 256)
                if r < .2:
                    if rng.random() < .2 and 1 <= ln <= 62: ops.append(dict(op="sendrc", d=0, rc=-1))
                    ops.append(dict(op="send", c=0, b=pay, **a)); ops.append(dict(op="adv", ms=100))
                elif r < .35:
                    ans = d2answer(rng, fl, tgt, src, 0xa5)[:1]
                    ops += [dict(op="push", d=0, r=ans), dict(op="recv", c=0, w=rng.choice([0, 50, 300, 1000])), dict(op="adv", ms=3000), dict(op="recv", c=0, w=1200)]
                    if not fl & F["FRAME"]: break
                elif r < .5:
                    ops.append(dict(op="turn", d=0, r=d2answer(rng, fl, tgt, src, 0xa1)))
                    ops += [dict(op="adv", ms=rng.choice([4000, 4000, 5000, 100])), dict(op="l2timer")]
                    break
                else:
                    if 1 <= ln <= 62: ops.append(dict(op="turn", d=0, r=d2answer(rng, fl, tgt, src, pay[0])))
                    ops.append(dict(op="req", c=0, b=pay, **a))
                    if not fl & F["FRAME"]: break
            if rng.random() < .8: ops.append(dict(op="turn", d=0, r=d2answer(rng, fl, tgt, src, 0xa0)))
        ops += [dict(op="stop", c=0), dict(op="l2close", d=0), dict(op="live")]
        out.append(dict(flags=fl, wmrc=wmrc, kb=kb, ops=ops))
    return out
# ------------------------------------------------------------------- MB1
MBIF = [TTY, TTY, PLAIN, PLAIN | F["P4"], TTY | F["HALF"], PLAIN | F["KA"], TTY | F["CK"]]
def s16(f): s = sum(f); return f + [s & 255, s >> 8 & 255]
def mbframe(rng, pay): return s16([rng.randrange(256), pay[0], len(pay) + 4] + pay[1:])
def mbanswer(rng):
    k = rng.random(); n = rng.choice([1, 1, 2, 3, 8, 20]) if rng.random() < .9 else rng.choice([100, 250, 251])
    f = mbframe(rng, rb(rng, n))
    if k < .08: return []
    if k < .13: return [(5, "E%d" % rng.choice([-16, -1, -18]))]
    if k < .28: f = list(f); f[rng.randrange(len(f))] ^= 1 << rng.randrange(8)
    elif k < .38: f = f[:rng.randrange(1, len(f))]
    elif k < .43: f = list(f); f[2] = rng.choice([0, 1, 3, 4, 5, 255])
    elif k < .48: f = s16(f[:2] + [rng.choice([len(f) - 1, len(f) + 1, 4, 3])] + f[3:-2])
    if rng.random() < .5 and len(f) > 1:
        c = rng.randrange(1, len(f)); return [(rng.choice([5, 300, 990]), f[:c]), (rng.choice([0, 1, 20, 90]), f[c:])]
    return [(rng.choice([5, 300, 990]), f)]
def gen_mb(rng, n):
    out = []
    for i in range(n):
        fl = rng.choice(MBIF); tgt = rng.choice([0x10, 0x41, rng.randrange(256)])
        kb = [0xc2, 0xcd]; k = rng.random(); irc = 0
        if k < .15: kb = rng.choice([[0xc2, 0xcc], [0xc3, 0xcd], [0xcd, 0xc2], [8, 8], rb(rng, 2), [0xc2 ^ 1 << rng.randrange(8), 0xcd], [0xc2, 0xcd ^ 1 << rng.randrange(8)], [0xc2, 0xcd ^ 1 << rng.randrange(8)], [0xc2, 0x4d], [0x42, 0xcd]])
        r = [(rng.choice([5, 90]), [kb[0]]), (rng.choice([5, 90]), [kb[1]])]
        if .15 < k < .25: r = rng.choice([[], r[:1], [(5, "E-16")], [r[0], (5, "E-1")]]); kb = None
        if k > .96: irc = rng.choice([-1, -16])
        good = kb == [0xc2, 0xcd] and irc == 0
        a0 = mbanswer(rng)
        if good: r = r + a0
        ops = [dict(op="dnew"), dict(op="dev", d=0, flags=fl, echo=1 if fl & F["HALF"] else 0), dict(op="mark"), dict(op="l2open", d=0, p=1), dict(op="init", d=0, rc=irc, r=r),
               dict(op="start", c=0, p=7, fl=rng.choice([0, 1]), br=rng.choice([9600, 0, 10400]), tgt=tgt, src=0xf1)]
        if good:
            for k in range(rng.randint(1, 5) if not a0 or clean(a0) else 0):
                if rng.random() < .3: ops.append(dict(op="adv", ms=rng.choice([0, 30, 1000, 4000])))
                ln = rng.choice([1, 2, 100, 200, 250, 251, 252, 253, 255, 256, 0, 1000, 1100]) if rng.random() < .4 else rng.randint(1, 12)
                pay = rb(rng, ln); x = rng.random(); ok = 1 <= ln <= 251; ans = mbanswer(rng)
                if x < .2:
                    if rng.random() < .2 and ok: ops.append(dict(op="sendrc", d=0, rc=-1))
                    ops += [dict(op="send", c=0, b=pay), dict(op="adv", ms=100)]
                elif x < .35: ops += [dict(op="push", d=0, r=ans), dict(op="recv", c=0, w=rng.choice([50, 400, 1000]))]; break
                elif x < .5: ops += [dict(op="turn", d=0, r=ans), dict(op="adv", ms=rng.choice([4000, 4000, 100])), dict(op="l2timer")]; break
                else:
                    if ok: ops.append(dict(op="turn", d=0, r=ans))
                    ops.append(dict(op="req", c=0, b=pay))
                    if ok and not clean(ans): break
        ops += [dict(op="stop", c=0), dict(op="l2close", d=0), dict(op="live")]
        out.append(dict(flags=fl, ops=ops))
    return out
def clean(ans):
    f = [x for _, b in ans if not isinstance(b, str) for x in b]
    return len(f) >= 5 and f[2] == len(f) and not any(isinstance(b, str) for _, b in ans)
