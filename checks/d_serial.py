"""Scenarios for the serial interfaces without an ELM (spec/Serial): DUMB (C34), BR-1 (C35), ME T16 (C36)."""
from vlib import CheckError
CALL = dict(op="other", p=1, b=[], v=0, n=1024, w=100, type=1, addr=0x33, cmd=0, db=8, sb=1, par=3)
KNOWN = ("enew", "ecfg", "eopen", "eclose", "esend", "erecv", "eio", "einit", "espeed", "live")
def trace(s, evs):
    out = []
    for e in evs:
        if e["e"] == "call":
            o = s["ops"][e["i"]]; c = dict(CALL, **{k: v for k, v in o.items() if k in CALL})
            if o["op"] not in KNOWN: c["op"] = "other"
            if o["op"] == "ecfg": c["port"] = bytes(o["b"]).decode()
            if o["op"] == "enew": c["n_"] = o.get("n", "ELM"); c["n"] = 0
            out.append(dict(e="call", t=e["t"], c=c))
        elif e["e"] == "badop": raise CheckError("harness does not know an op")
        else: out.append(e)
    return dict(ev=out)
def bts(rng, n): return [rng.choice([0, 0xff, 0x55, rng.randrange(256), rng.randrange(256)]) for _ in range(n)]
def hx(b): return bytes(b).hex()
def bursts(rng, b, gap, split=None):
    """bytes as bursts, the first after gap ms"""
    if not b: return "-"
    out = []; i = 0
    while i < len(b):
        k = len(b) if (split is None and rng.random() < .6) or split is False else rng.randint(1, len(b) - i); k = min(k, len(b) - i)
        out.append("%d:%s" % (gap if not i else rng.choice([0, 1, 2, 5, 20]), hx(b[i:i + k]))); i += k
    return ",".join(out)
def wrap(rng, name, v, body, echo=0):
    port = "/dev/tty%d" % rng.randrange(9)
    return dict(ops=[dict(op="mark"), dict(op="enew", n=name), dict(op="ecfg", b=list(port.encode()), v=v), dict(op="ttw", echo=echo)] + body + [dict(op="eclose"), dict(op="edel"), dict(op="live")])
SPEEDS = [10400, 10400, 9600, 4800, 1200, 19200, 38400]
def speed(rng): return dict(op="espeed", v=rng.choice(SPEEDS), db=rng.choice([8, 8, 8, 7, 5]), sb=rng.choice([1, 1, 2]), par=rng.choice([3, 3, 1, 2]))
def fails(rng, kinds, n): return dict(op="ttf", **{rng.choice(kinds): ",".join(map(str, sorted(rng.sample(range(n), min(n, rng.choice([1, 1, 2]))))))})
def raw_traffic(rng, n):
    out = []
    for _ in range(n):
        r = rng.random()
        if r < .3: out.append(dict(op="ttp", r=bursts(rng, bts(rng, rng.choice([1, 2, 5, 12])), rng.choice([0, 1, 10, 45, 99, 101, 300]), split=rng.random() < .5)))
        elif r < .5: out.append(dict(op="esend", b=bts(rng, rng.choice([1, 1, 2, 5, 12, 100, 0]))))
        elif r < .9: out.append(dict(op="erecv", n=rng.choice([1, 1, 2, 3, 5, 12, 100, 0]), w=rng.choice([1, 10, 50, 100, 300])))
        elif r < .95: out.append(dict(op="eio", cmd=rng.choice([8706, 8706, 0x2999, 0])))
        else: out.append(dict(op="adv", ms=rng.choice([1, 10, 100])))
    return out
def gen_dumb(rng, n):
    out = []
    for _ in range(n):
        v = rng.choice([0, 0, 2]) + rng.choice([0, 32, 64, 96])
        man = rng.random() < .6; useL = rng.random() < .5
        v += (8 if man else 0)
        if useL: v += 1 + rng.choice([0, 0, 16 + 4])
        else: v += rng.choice([0, 0, 4]) + rng.choice([0, 0, 0, 16])
        body = []; echo = 1 if (not man or rng.random() < .5) and rng.random() < .9 else 0
        if rng.random() < .08: body += [fails(rng, ["open", "ctl"], 1), dict(op="eopen", p=1), dict(op="ttf")]
        for _ in range(rng.choice([1, 1, 1, 2])):
            body.append(dict(op="eopen", p=rng.choice([1, 1, 2, 2, 2, 0x80, 4])))
            if rng.random() < .2: body.append(dict(op="ttp", r=bursts(rng, bts(rng, 3), rng.choice([0, 10]))))
            for _ in range(rng.randint(1, 3)):
                r = rng.random(); typ = 2 if r < .5 else 1 if r < .92 else rng.choice([0, 3, 9])
                addr = rng.choice([0x33, 0x33, 0x10, 0, 0xff, 0x7f, 0x80, 0x55, 0xaa, rng.randrange(256), rng.randrange(256)])
                if typ == 2:
                    body.append(speed(rng))
                    base = 30 + (1980 if man or useL else 2000); r = rng.random()
                    if r < .7: body.append(dict(op="ttp", r="%d:%s" % (base + rng.choice([70, 100, 200, 280]), "55")))
                    elif r < .8: body.append(dict(op="ttp", r="%d:55" % (base + rng.choice([500, 900]))))
                    if r > .9: body.append(dict(op="ttp", r="5:%s" % hx(bts(rng, 2))))
                elif typ == 1 and rng.random() < .3: body.append(dict(op="ttp", r="%d:%s" % (rng.choice([0, 10, 29]), hx(bts(rng, rng.choice([1, 4]))))))
                if rng.random() < .06 and typ == 1: body.append(fails(rng, ["ctl", "brk"], 1))
                body.append(dict(op="einit", type=typ, addr=addr))
                if rng.random() < .5: body.append(dict(op="ttf"))
                body.append(dict(op="adv", ms=rng.choice([1, 500, 1500])))
                if rng.random() < .6: body.append(speed(rng))
                if rng.random() < .1: body.append(fails(rng, ["write", "set"], 3))
                body += raw_traffic(rng, rng.choice([0, 2, 5]))
                body += [dict(op="ttf"), dict(op="adv", ms=1000)]
            body.append(dict(op="eclose"))
        out.append(wrap(rng, "DUMB", v, body, echo))
    return out
def br_msg(rng, iso=False):
    """an adapter's answer: length byte with flags, then data"""
    r = rng.random(); n = rng.choice([1, 2, 5, 7, 12, 14, 15])
    if r < .6: return [n] + bts(rng, n)
    if r < .68: return [0x80 | rng.choice([0, 1, 2])] + []
    if r < .74: return [0]
    if r < .8: return [n] + bts(rng, n - 1)
    if r < .86: return [0x40 | n] + bts(rng, n)
    if r < .9: n = rng.choice([1, 3]); return [0x80 | n] + bts(rng, n)
    if r < .93: n = rng.choice([1, 3]); return [rng.choice([0x10, 0x20, 0x30]) | n] + bts(rng, n)
    return []
def slow_parts(rng, t):
    """a message in pieces, at most 95 ms after its first byte"""
    if rng.random() < .7 or t == "-" or "," in t or "E" in t: return t
    g, h = t.split(":"); k = rng.randrange(2, len(h) + 1, 2)
    return t if k >= len(h) else "%s:%s,%d:%s" % (g, h[:k], rng.choice([1, 20, 60, 95]), h[k:])
def gen_br(rng, n):
    out = []
    for _ in range(n):
        p = rng.choice([4, 8, 4, 8, 1, 2]); j = p in (4, 8); body = []
        def conn(good=False):
            r = 0 if good else rng.random()
            return "%d:ff" % rng.choice([1, 20, 95]) if r < .85 else rng.choice(["-", "5:20", "5:00", "105:ff", "5:fe", "5:E-1"])
        body.append(dict(op="ttx", c="20", r="|".join([conn(), conn(), conn(), conn(True)])))
        def ini():
            r = rng.random(); g = rng.choice([1, 20, 95])
            if r < .75: return "%d:0100" % g
            if r < .87: return "%d:02%s" % (g, hx([0, rng.randrange(256)]))
            return rng.choice(["-", "105:0100", "5:00", "5:80", "5:0107", "5:0200", "5:03000102", "5:81", "5:8100", "5:4100", "5:40", "5:01"])
        if j: body.append(dict(op="ttx", c=hx([0x41, 1 if p == 8 else 0]), r="|".join(ini() for _ in range(4))))
        if rng.random() < .08: body.append(fails(rng, ["open", "set", "write", "write"], 2))
        pool = [bts(rng, k) for k in rng.sample([1, 2, 3, 5, 7, 11, 12, 13, 14, 14], 3)]
        addr = rng.choice([0x33, 0x10, rng.randrange(256)])
        if not j:
            def slow():
                r = rng.random(); g = rng.choice([10, 2000, 2400, 5900])
                if r < .7: return "%d:%s" % (g, hx(rng.choice([[2, 8, 8], [2, 0x94, 0x94], [2] + bts(rng, 2), [1, 8], [1] + bts(rng, 1), [3] + bts(rng, 3)])))
                return rng.choice(["-", "6100:020808", "5:80", "5:00", "5:0208", "5:400808", "5:8108"])
            body.append(dict(op="ttx", c=hx([0x42, 2, addr]), r="|".join(slow_parts(rng, slow()) for _ in range(3))))
        else:
            for q in pool:
                if len(q) < 15:
                    for fr in (1, 2, 3):
                        # conflicts come as a row of busy answers to the same frame
                        turns = []
                        for _ in range(4):
                            if rng.random() < .25: turns += ["%d:40" % rng.choice([1, 30])] * rng.choice([1, 2, 3, 12]) if rng.random() < .9 else ["3:41%02x" % rng.randrange(256)]
                            turns.append(slow_parts(rng, bursts(rng, br_msg(rng), rng.choice([1, 30, 300, 490, 700]), split=False)) if rng.random() < .9 else "-")
                        if rng.random() < .06: turns = ["2:40"] * 40
                        body.append(dict(op="ttx", c=hx([len(q) + 1] + q + [fr]), r="|".join(turns[:60])))
        for _ in range(rng.choice([1, 1, 2])):
            body += [dict(op="eopen", p=p), dict(op="eopen", p=p)] if rng.random() < .5 else [dict(op="eopen", p=p)]
            sent = False
            for _ in range(rng.randint(1, 5)):
                r = rng.random()
                if r < .25 or (not j and r < .4): body.append(dict(op="einit", type=rng.choice([2, 2, 2, 2, 1, 0]) if not j else 0, addr=addr))
                if rng.random() < .03: body.append(fails(rng, ["write"], 6))
                if rng.random() < .5 or not sent: body.append(dict(op="esend", b=rng.choice(pool) if rng.random() < .85 else bts(rng, rng.choice([0, 15, 16, 20, 14])))); sent = body[-1]["b"] in pool or sent
                if not j and rng.random() < .5: body.append(dict(op="ttp", r=bursts(rng, bts(rng, rng.choice([1, 3, 9])), rng.choice([0, 20, 99, 300]))))
                if sent or not j:
                    for _ in range(rng.choice([1, 1, 2, 3, 4])): body.append(dict(op="erecv", n=rng.choice([1024, 1024, 1024, 1, 2, 7, 0] if j else [1, 1, 2, 3, 20, 0]), w=rng.choice([1, 50, 100, 600, 1000])))
                if rng.random() < .1: body.append(dict(op="eio", cmd=rng.choice([8706, 0x2999, 0])))
                if rng.random() < .1: body.append(speed(rng))
                body.append(dict(op="adv", ms=rng.choice([0, 1000, 3000])) if rng.random() < .5 else dict(op="eio", cmd=8706))
                body.append(dict(op="ttf"))
            body.append(dict(op="eclose"))
        out.append(wrap(rng, "BR1", 0, body))
    return out
def crc(b):
    c = 0xff
    for x in b:
        c ^= x
        for _ in range(8): c = ((c << 1) ^ 0x1d if c & 0x80 else c << 1) & 0xff
    return 255 - c
def me_frame(rng, kind=None):
    typ = rng.choice([0x82, 0x84, 0x81, 1, 0x82, 1, 0x81, 0x10, 0x85, 0x80, 0x40])
    if kind is not None: typ = kind
    n = rng.choice([1, 2, 3, 5, 7, 10, 10, 11]); p = bts(rng, n)
    if rng.random() < .25: p = p[:-2] + [0] * min(2, n)
    if n < 11 and rng.random() < .85: p.append(crc(p) if typ in (0x82, 0x84) else sum(p) % 256)
    if rng.random() < .1: p = [0] * 10
    if typ == 0x80: p = [rng.randrange(256), rng.choice([5, 7, 12, 0, 1, rng.randrange(256)])]
    f = [rng.choice([0x38, 0, rng.randrange(256)]), typ] + (p + [0] * 11)[:11]
    f.append(sum(f[1:13]) % 256)
    if rng.random() < .06: f[rng.randrange(1, 14)] ^= rng.choice([1, 0x80, 0x55])
    return f
def me_req(v, c, b):
    x = [v, c] + (b + [0] * 12)[:12]
    return x + [sum(x[1:13]) % 256]
CMD = {1: 0x10, 4: 2, 8: 0x80, 0x10: 8}
def gen_me(rng, n):
    out = []
    for _ in range(n):
        p = rng.choice([1, 2, 2, 4, 8]); v = rng.choice([0x38, 0x38, 0x25, rng.randrange(256)]); body = []; addr = rng.choice([0x33, 0x10, rng.randrange(256)])
        if rng.random() < .08: body.append(fails(rng, ["open", "set", "ctl"], 1))
        def part(f, g): k = rng.random(); return bursts(rng, f if k < .8 else f[:rng.randrange(len(f))], g, split=False)
        if p == 1:
            one = lambda: rng.choice(["%d:%02x" % (rng.choice([10, 2000, 2300]), rng.choice([38, 39, 42, 0x40, 0, 0x40, 20, 84, 110, 167, 200, rng.randrange(256), rng.randrange(256), rng.randrange(256), rng.randrange(256)]))] * 6 + ["-", "2400:26"])
            body.append(dict(op="ttx", c=hx(me_req(v, 0x20, [addr])), r="|".join(one() for _ in range(3))))
        if p == 2:
            ack = lambda: part(me_frame(rng, rng.choice([0x85, 0x85, 0x85, 0x85, 0x80])), rng.choice([5, 150])) if rng.random() < .93 else rng.choice(["-", "300:3885"])
            kbs = lambda: part([v, rng.choice([0x86, 0x86, 0x86, 0x86, 0x80])] + bts(rng, 12), rng.choice([5, 150])) if rng.random() < .93 else "-"
            body += [dict(op="ttx", c=hx(me_req(v, 0x85, [1, 0x3e])), r="|".join(ack() for _ in range(4))), dict(op="ttx", c=hx(me_req(v, 0x86, [])), r="|".join(kbs() for _ in range(4)))]
        pool = [bts(rng, k) for k in rng.sample([1, 2, 3, 5, 7, 9, 10, 11, 11], 3)]
        for q in pool:
            for c in ([0x87, 0x88] if p == 2 else [CMD[p]]):
                body.append(dict(op="ttx", c=hx(me_req(v, c, [len(q)] + q)), r="|".join(("%s" % ",".join(bursts(rng, me_frame(rng), rng.choice([2, 30, 90, 200]), split=rng.random() < .1) for _ in range(rng.choice([1, 1, 1, 2])))) if rng.random() < .9 else part(me_frame(rng), 20) for _ in range(3))))
        for _ in range(rng.choice([1, 1, 2])):
            body += [dict(op="eopen", p=p), dict(op="ttf"), dict(op="eopen", p=p)] if rng.random() < .4 else [dict(op="eopen", p=p)]
            for _ in range(rng.randint(1, 5)):
                if rng.random() < (.5 if p < 3 else .15): body.append(dict(op="einit", type=rng.choice([1, 2, 2]) if p < 3 else 1, addr=addr))
                if rng.random() < .03: body.append(fails(rng, ["write"], 2))
                if rng.random() < .7: body.append(dict(op="esend", b=rng.choice(pool) if rng.random() < .85 else bts(rng, rng.choice([0, 12, 15, 20, 255]))))
                if rng.random() < .2: body.append(dict(op="ttp", r=bursts(rng, me_frame(rng)[:rng.choice([14, 14, 9])], rng.choice([0, 20, 99, 300]))))
                for _ in range(rng.choice([1, 1, 2, 3, 4])): body.append(dict(op="erecv", n=rng.choice([1024, 1024, 1024, 1, 2, 7, 0]), w=rng.choice([1, 50, 100, 300, 1000])))
                if rng.random() < .1: body.append(dict(op="eio", cmd=rng.choice([8706, 0x2999, 0])))
                if rng.random() < .1: body.append(speed(rng))
                body += [dict(op="ttf"), dict(op="adv", ms=rng.choice([0, 100, 1000]))]
                if rng.random() < .5: body.append(dict(op="eio", cmd=8706))
            body.append(dict(op="eclose"))
        out.append(wrap(rng, "MET16", v, body))
    return out
