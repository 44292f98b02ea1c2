"""Scenarios for the ISO14230 specification (spec/Iso14230*.tla)."""
import random
from vlib import norm
F = dict(HALF=16, FRAME=32, SLOWI=64, CK=128, STRIP=256, P4=512, AUTO=1024, NOTTY=2048, BLOCK=4096, NOHDR=8192, FULL=16384, DATA=32768, KA=65536)
CALL = dict(op="", fl=0, br=10400, tgt=0, src=0, b=[], mdest=0, msrc=0, w=0, ms=0)
TTY = 0x3                      # plain serial interface
PLAIN = TTY | F["AUTO"] | F["NOTTY"]
SMART = PLAIN | F["FRAME"]
def trace(s, evs):
    return dict(flags=s["flags"], ev=norm(s, evs, CALL, drop=("l0open", "l0close", "wm")))
def cks(b): return sum(b) & 255
def frame(pay, dst=0xf1, src=0x10, func=False, form="fmt", ck=True, bad=0):
    """form: fmt (long header, length in format byte), len (long + length byte), short, shortlen"""
    n = len(pay)
    if form == "fmt" and n < 64: h = [(0xc0 if func else 0x80) | n, dst, src]
    elif form in ("fmt", "len"): h = [0xc0 if func else 0x80, dst, src, n]
    elif form == "short" and n < 64: h = [n]
    else: h = [0, n]
    b = h + list(pay)
    if ck: b = b + [(cks(b) + bad) & 255]
    return b
def head(flags, extra=None, p=2):
    # scenarios begin by creating the driver instance and opening the link
    o = [dict(op="dnew"), dict(op="dev", d=0, flags=flags)]
    if extra: o[1].update(extra)
    return o + [dict(op="l2open", d=0, p=p)]
class Env:
    """what the interface shows to L2, given its capabilities"""
    def __init__(self, flags): self.fl = flags; self.smart = bool(flags & F["FRAME"])
    def enc(self, pay, **kw):
        if self.fl & F["NOHDR"]: return list(pay) + ([] if self.fl & F["STRIP"] else [cks(pay)])
        return frame(pay, ck=not (self.fl & F["STRIP"]), **kw)
def start_ops(flags, rng, mode=1, tgt=0x10, src=0xf1, func=False, j1978=False, kb=(0xef, 0x8f), resp=None, br=10400):
    """start session that succeeds (unless resp overrides the ECU's answer)"""
    e = Env(flags); ops = []
    fl = mode | (0x10 if func else 0) | (0x20 if j1978 else 0)
    if mode == 1:
        ops.append(dict(op="init", d=0, rc=0, r=[]))
        if not flags & F["FULL"]:
            if resp is None: resp = [(30, e.enc([0xc1, kb[0], kb[1]], dst=src, src=tgt))]
            ops.append(dict(op="turn", d=0, r=resp))
    elif mode == 0:
        if flags & F["FULL"]: ops.append(dict(op="init", d=0, rc=0, r=[]))
        elif resp is None:
            ops.append(dict(op="init", d=0, rc=0, r=[(20, [kb[0], kb[1]])]))
            if not flags & F["SLOWI"]: ops.append(dict(op="turn", d=0, r=[(30, [~tgt & 255])]))
        else:
            ops.append(dict(op="init", d=0, rc=0, r=resp[0]))
            if len(resp) > 1: ops.append(dict(op="turn", d=0, r=resp[1]))
    ops.append(dict(op="start", c=0, p=3, fl=fl, br=br, tgt=tgt, src=src))
    return ops
def resolve_kb(rng):  # key bytes by header-form nibble
    return (0x80 | rng.randrange(16) | rng.choice([0, 0x10, 0x20, 0x60]), 0x8f)
def rpay(rng, n): return [rng.randrange(256) for _ in range(n)]
INTERFACES = [TTY, PLAIN, TTY | F["HALF"], PLAIN | F["P4"], SMART, SMART | F["STRIP"], SMART | F["CK"] | F["STRIP"],
              SMART | F["CK"] | F["STRIP"] | F["DATA"], SMART | F["CK"] | F["STRIP"] | F["NOHDR"], PLAIN | F["CK"], PLAIN | F["SLOWI"],
              SMART | F["STRIP"] | F["CK"] | F["FULL"] | F["DATA"]]
def dev_extra(flags): return dict(echo=1) if flags & (F["HALF"] | F["BLOCK"]) else {}
def mk(flags, ops): return dict(flags=flags, ops=head(flags, dev_extra(flags)) + ops)

def gen_tx(rng, n):
    """C06: transmitted frames"""
    out = []
    lens = [1, 2, 3, 5, 7, 8, 31, 62, 63, 64, 65, 66, 127, 128, 200, 254, 255, 256, 257, 300, 0]
    combos = [(fl, nib) for fl in INTERFACES for nib in range(16)]
    rng.shuffle(combos)
    for i in range(n):
        fl, nib = combos[i % len(combos)]
        mode = rng.choice([0, 1]); func = rng.random() < .5
        if fl & F["FULL"]: nib = 0
        tgt, src = rng.choice([0x10, 0x33, 0x01, 0xfe]), rng.choice([0xf1, 0xf5, 0x12])
        kb = (0x80 | nib | rng.choice([0, 0x40, 0x70]), rng.choice([0x8f, 0x8f, 0x0f]))
        ops = start_ops(fl, rng, mode, tgt, src, func, rng.random() < .3, kb)
        e = Env(fl)
        for _ in range(rng.randint(2, 5)):
            ln = rng.choice(lens) if rng.random() < .8 else rng.randrange(1, 256)
            pay = rpay(rng, ln)
            md, ms = rng.choice([(0, 0), (0, 0), (rng.randrange(1, 256), 0), (0, rng.randrange(1, 256)), (0x55, 0xaa)])
            if rng.random() < .6:
                if rng.random() < .1 and 1 <= ln <= 255: ops.append(dict(op="sendrc", d=0, rc=rng.choice([-1, -16])))
                ops.append(dict(op="send", c=0, b=pay, mdest=md, msrc=ms))
            else:
                if 1 <= ln <= 255: ops.append(dict(op="turn", d=0, r=[(30, e.enc([0x50, 1], dst=src, src=tgt))]))
                # a refused request transmits nothing and leaves the reply unused: keep it last
                ops.append(dict(op="req", c=0, b=pay, mdest=md, msrc=ms))
                if not (1 <= ln < 64): break
            if rng.random() < .3: ops.append(dict(op="adv", ms=rng.choice([10, 100])))
        out.append(mk(fl, ops))
    return out
def split(rng, b):
    """split a frame's bytes into bursts with legal inter-byte gaps"""
    if rng.random() < .5 or len(b) < 2: return [b]
    k = sorted(set(rng.randrange(1, len(b)) for _ in range(rng.randint(1, 3))))
    return [b[i:j] for i, j in zip([0] + k, k + [len(b)])]
def rframe(rng, e, tgt, src, lens=None, mon=False):
    n = rng.choice(lens or [1, 2, 3, 5, 7, 20, 62, 63, 64, 100, 255])
    pay = rpay(rng, n)
    if pay[0] == 0x7f: pay[0] = 0x50
    form = rng.choice(["fmt", "len", "short", "shortlen", "fmt"])
    if mon: form = rng.choice(["fmt", "len"] + (["short"] if n < 64 else []))   # a leading 00 is taken for a fast init pulse when monitoring
    if mon and e.fl & F["NOHDR"]: pay[0] |= 1
    return e.enc(pay, dst=rng.choice([src, rng.randrange(256)]), src=rng.choice([tgt, rng.randrange(256)]), func=rng.random() < .4, form=form)
def bursts(rng, e, frames, first=30):
    """legal timing: whole frames; frames back to back or separated by up to P2max"""
    r = []
    for i, f in enumerate(frames):
        parts = [f] if e.smart else split(rng, f)
        for j, p in enumerate(parts):
            g = (rng.choice([first, 25, 40]) if i == 0 else rng.choice([0, 1, 30, 50]) if not e.smart else rng.choice([5, 50, 100])) if j == 0 else rng.choice([0, 1, 5])
            r.append((g, p))
    return r
def gen_rx(rng, n):
    """C07: receive path"""
    out = []
    for i in range(n):
        fl = rng.choice(INTERFACES); e = Env(fl); tgt, src = 0x10, 0xf1
        mode = rng.choice([0, 1, 1, 3])
        ops = start_ops(fl, rng, mode, tgt, src, kb=(0x8f, 0x8f) if not fl & F["FULL"] else (0, 0))
        if mode == 3 and fl & F["HALF"]: continue
        for _ in range(rng.randint(1, 4)):
            k = rng.random()
            nf = rng.choice([1, 1, 2, 3, 5])
            frames = [rframe(rng, e, tgt, src, mon=(mode == 3)) for _ in range(nf)]
            if mode == 3 and not (fl & F["NOHDR"]): # monitor: first frame needs addresses
                frames = [e.enc(rpay(rng, 4), dst=1, src=2)] + frames
                if rng.random() < .15: frames = frames[1:]
            fault = rng.random()
            lastbad = False
            if fault < .5 and not (fl & F["STRIP"] and fl & F["FRAME"]):
                f = list(frames[-1])
                w = rng.randrange(5)
                if w == 0 and not fl & F["STRIP"]: f[-1] = (f[-1] + rng.randrange(1, 256)) & 255
                elif w == 1 and len(f) > 1 and not e.smart: f = f[:rng.randrange(1, len(f))]; lastbad = True
                elif w == 2 and not fl & F["NOHDR"]: f[0] = 0x40 | (f[0] & 0x3f); lastbad = True
                elif w == 3 and not fl & F["STRIP"]: f[rng.randrange(len(f) - 1) if len(f) < 5 else -2] ^= 1 << rng.randrange(8)
                elif w == 4 and e.smart: f = f[:rng.randrange(1, min(len(f), 6))]
                if w == 3 and not e.smart:
                    # altered header bytes may change the framing: keep it alone
                    frames = [f]
                else: frames = frames[:-1] + [f]
            op = rng.choice(["req", "recv"])
            if fault >= .93: r = []
            else: r = bursts(rng, e, frames)
            if fault > .88 and r:
                r = r[:rng.randrange(len(r) + 1)] if e.smart else r
                r = r + [(5, "E%d" % rng.choice([-1, -3, -16]))] if rng.random() < .6 else r
            if op == "req" and mode != 3:
                ops.append(dict(op="turn", d=0, r=r)); ops.append(dict(op="req", c=0, b=[0x10, 0x01]))
            else:
                ops.append(dict(op="push", d=0, r=r)); ops.append(dict(op="recv", c=0, w=rng.choice([60, 100, 400])))
            ops.append(dict(op="adv", ms=500))
        out.append(mk(fl, ops))
    return out
def gen_req(rng, n):
    """C08: busy / pending / negative / missing"""
    out = []
    for i in range(n):
        fl = rng.choice(INTERFACES); e = Env(fl); tgt, src = 0x10, 0xf1
        ops = start_ops(fl, rng, rng.choice([0, 1]), tgt, src, kb=(0x8f, 0x8f) if not fl & F["FULL"] else (0, 0))
        for _ in range(rng.randint(1, 3)):
            sid = rng.choice([0x10, 0x21, 0x3e, 0x1a, 0x18])
            turns = [[]]
            k = 0
            plan = rng.choice([""] * 6 + ["bbb", "bbbb", "bbbbb", "bpbpbpb", "bbbpb", "ppbb"])   # all busy limits
            while True:
                kind = plan[k] if k < len(plan) else rng.choice("bbppppnrrss7x" if k < 6 else "nrs")
                k += 1
                enc = lambda p: e.enc(p, dst=src, src=tgt)
                g = rng.choice([30, 45]) if not turns[-1] else rng.choice([0, 2, 50, 110]) if not e.smart else rng.choice([10, 100])
                if kind == "b": turns[-1].append((g, enc([0x7f, sid, 0x21]))); turns.append([])
                elif kind == "p": turns[-1].append((g, enc([0x7f, sid, 0x78])))
                elif kind == "n": turns[-1].append((g, enc([0x7f, sid, rng.choice([0x10, 0x11, 0x12, 0x22, 0x33, 0x35, 0x80, 0x79, 0x20])]))); break
                elif kind == "7": turns[-1].append((g, enc([0x7f] + ([sid] if rng.random() < .5 else [])))); break
                elif kind == "r":
                    for j in range(rng.choice([1, 1, 2])): turns[-1].append((g if j == 0 else 40, enc([sid | 0x40] + rpay(rng, rng.choice([0, 1, 2, 5])))))
                    break
                elif kind == "x" and not fl & F["STRIP"]:
                    f = enc([sid | 0x40, 0x21, 0x78]); f[-1] ^= 0x55; turns[-1].append((g, f)); break
                else: break
            for t in turns: ops.append(dict(op="turn", d=0, r=t))
            ops.append(dict(op="req", c=0, b=[sid, 1, 2]))
            # the turns of this request must all be used up before the next one
            if sum(1 for t in turns) > 4 or True: break
        if rng.random() < .15: ops.insert(-1, dict(op="sendrc", d=0, rc=0))
        out.append(mk(fl, ops))
    # transmission failures, also on the repeat
    for i in range(max(4, n // 20)):
        fl = rng.choice([PLAIN | F["P4"], SMART, SMART | F["STRIP"] | F["CK"]]); e = Env(fl)
        ops = start_ops(fl, rng, 1, kb=(0x8f, 0x8f))
        k = rng.choice([0, 1, 2])
        for _ in range(1 + k): ops.append(dict(op="sendrc", d=0, rc=0))
        ops.append(dict(op="sendrc", d=0, rc=rng.choice([-1, -16, -7])))
        for _ in range(k): ops.append(dict(op="turn", d=0, r=[(30, e.enc([0x7f, 0x21, 0x21]))]))
        ops.append(dict(op="req", c=0, b=[0x21, 5]))
        out.append(mk(fl, ops))
    return out
def gen_init(rng, n):
    """C09: start / stop / keepalive"""
    out = []
    for i in range(n):
        fl = rng.choice(INTERFACES); e = Env(fl); tgt, src = rng.choice([0x10, 0x33, 0x7f]), rng.choice([0xf1, 0xf2])
        mode = rng.choice([0, 0, 1, 1, 1, 3, 2]); func = rng.random() < .5; j = rng.random() < .5
        kb = (0x80 | rng.randrange(128), rng.choice([0x8f, 0x8f, 0x55]))
        ops = []
        for attempt in range(rng.choice([1, 2])):
            k = rng.random(); resp = None
            if mode == 1 and k < .55 and not fl & F["FULL"]:
                pay = rng.choice([[0x7f, 0x81, 0x10], [0xc1], [0xc1, kb[0]], [0x50, 1, 2], [0xc1, kb[0], kb[1], 9], [0x7f], [0xc1, kb[0], kb[1]]])
                f = e.enc(pay, dst=src, src=tgt)
                q = rng.random()
                if q < .2 and not fl & F["STRIP"]: f[-1] ^= rng.randrange(1, 256)
                elif q < .35 and not e.smart: f = f[:rng.randrange(1, len(f))]
                resp = [(rng.choice([25, 45]), f)]
                if q > .85: resp = []
                elif q > .75: resp.append((30, e.enc([0xc1, 1, 2], dst=src, src=tgt + 1)))
                elif q > .7: resp = [(30, "E-1")]
            if mode == 0 and k < .55 and not fl & F["FULL"]:
                q = rng.randrange(6)
                good = [(30, [~tgt & 255])]
                resp = [[[], good], [[(20, [kb[0]])], good], [[(20, list(kb))], []], [[(20, list(kb))], [(40, [rng.choice([tgt, 0, 0xff ^ tgt ^ 1])])]],
                        [[(20, list(kb))] if e.smart else [(20, [kb[0]]), (10, [kb[1]])], good], [[(10, "E-1")], good]][q]
                if fl & F["SLOWI"] or fl & F["FULL"]: resp = resp[:1]
                elif q in (0, 1, 5): resp = resp[:1]
            so = start_ops(fl, rng, mode, tgt, src, func, j, kb if not fl & F["FULL"] else (0, 0), resp, br=rng.choice([0, 10400, 9600]))
            if rng.random() < .1 and mode in (0, 1):
                so = [o for o in so if o["op"] not in ("init", "turn")]; so.insert(0, dict(op="init", d=0, rc=rng.choice([-1, -4, -8])))
            ops += so
            if rng.random() < .15: ops.append(dict(op="send", c=0, b=[0x3e]))
            for _ in range(rng.choice([0, 1, 2])):
                ops.append(dict(op="adv", ms=rng.choice([500, 2000, 3000, 4000, 6000])))
                # keepalive answer; only queued when one will be sent, so tolerate by table
                ops.append(dict(op="l2timer"))
            if rng.random() < .7 or attempt == 0: ops.append(dict(op="stop", c=0))
            ops.append(dict(op="adv", ms=1000))
        out.append(mk(fl, ops))
    return out

def from_behaviour(bhv, flags):
    """a behaviour of MC_Iso14230 (one request, arbitrary ECU) as a scenario"""
    e = Env(flags)
    ops = start_ops(flags, None, 1, 0x10, 0xf1, kb=(0x8f, 0x8f))
    for t in bhv["turns"]: ops.append(dict(op="turn", d=0, r=[(g, b) for g, b in t]))
    return mk(flags, ops + [dict(op="req", c=0, b=[0x21, 5])])
