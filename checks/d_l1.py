"""Scenarios for the byte transport (spec/L1) and the raw protocol (spec/Raw)."""
from vlib import norm
F = dict(HALF=16, FRAME=32, P4=512, AUTO=1024, NOTTY=2048, BLOCK=4096)
B = 3 | F["AUTO"] | F["NOTTY"]
IFS = [B, B | F["HALF"], B | F["HALF"] | F["BLOCK"], B | F["FRAME"], B | F["P4"], B | F["P4"] | F["BLOCK"], B | F["FRAME"] | F["BLOCK"], B | F["BLOCK"]]
CALL = dict(op="", b=[], p4=0, n=0, w=0, keep=-1)
def trace(s, evs): return dict(flags=s["flags"], ev=norm(s, evs, CALL, keep=("in", "ret", "tx", "call", "ec", "rx"), merge_tx=0, drop=("in",)))
def rawtrace(s, evs): return dict(flags=s["flags"], ev=norm(s, evs, CALL, keep=("in", "ret", "tx", "call"), merge_tx=0))
def block(fl, p4): return bool(fl & (F["FRAME"] | F["P4"])) or (p4 == 0 and (not fl & F["HALF"] or fl & F["BLOCK"]))
def echoes(fl, p4): return bool(fl & F["BLOCK"]) if block(fl, p4) else bool(fl & F["HALF"])
def gen(rng, n):
    out = []
    for i in range(n):
        fl = IFS[i % len(IFS)]
        p4 = rng.choice([0, 0, 1, 5, 20])
        if fl & F["BLOCK"] and not fl & (F["HALF"] | F["FRAME"] | F["P4"]): p4 = 0
        echo = echoes(fl, p4)
        ops = [dict(op="dnew"), None, dict(op="l1open", d=0, p=1)]
        total = 0; plan = []
        fault = rng.random() < .35
        for _ in range(rng.randint(1, 3)):
            ln = rng.choice([1, 2, 3, 5, 12, 40]) if rng.random() < .85 else rng.choice([0, 255, 256, 1023, 1024, 1025])
            if not block(fl, p4) and ln > 100: ln = rng.choice([0, 7, 1025])
            ln = ln or 2
            b = [rng.randrange(256) for _ in range(ln)]
            if rng.random() < .15: b = [b[0]] * ln if ln else b
            plan.append(b)
        dev = dict(op="dev", d=0, flags=fl, echo=1 if echo else 0, byteus=rng.choice([0, 0, 960]))
        if fault and echo:
            tot = sum(len(b) for b in plan if len(b) <= 1024)
            if rng.random() < .3: plan = [plan[0], plan[0]]; dev["efat"] = 2 * len(plan[0]) - 1; dev["efmode"] = 1; tot = 0; fault = 2
            if tot: dev["efat"] = rng.randrange(tot); dev["efmode"] = rng.choice([1, 2])
            plan = plan[:1] if dev.get("efmode") == 1 and False else plan
        ops[1] = dev
        for b in plan:
            if rng.random() < .08: ops.append(dict(op="sendrc", d=0, rc=rng.choice([-1, -16, -8])))
            ops.append(dict(op="l1send", d=0, b=b, p4=p4) if b else dict(op="l1send", d=0, len=0, p4=p4))
            if fault is True and echo: break
            if fault == 2: continue
            if rng.random() < .5:
                if rng.random() < .6: ops.append(dict(op="push", d=0, r=[(rng.choice([0, 10, 80]), [rng.randrange(256) for _ in range(rng.choice([1, 2, 4]))])]))
                elif rng.random() < .5: ops.append(dict(op="push", d=0, r=[(3, "E-1")]))
                ops.append(dict(op="l1recv", d=0, n=rng.choice([1, 2, 4, 0]), w=rng.choice([20, 100, 400]))); ops.append(dict(op="l1recv", d=0, n=50, w=100))
        ops.append(dict(op="l1close", d=0))
        out.append(dict(flags=fl, ops=ops))
    return out
def gen_raw(rng, n):
    out = []
    for i in range(n):
        fl = rng.choice([B, B | F["FRAME"], B | F["P4"], B | F["HALF"], 3])
        ops = [dict(op="dnew"), dict(op="dev", d=0, flags=fl, echo=1 if fl & F["HALF"] else 0), dict(op="l2open", d=0, p=0x80), dict(op="start", c=0, p=0)]
        for k in range(rng.randint(2, 6)):
            b = [rng.randrange(256) for _ in range(rng.choice([1, 2, 8, 64, 255, 300]) if not fl & F["HALF"] else rng.choice([1, 3, 9]))]
            rx = rng.choice([1, 2, 7, 100, 255, 256, 257, 300, 600, 1000])
            r = [(rng.choice([0, 20, 40]), [rng.randrange(256) for _ in range(rx)])]
            q = rng.random()
            if q < .1: r = []
            elif q < .2: r = [(20, "E%d" % rng.choice([-1, -16]))]
            w = rng.random()
            if rng.random() < .1: ops.append(dict(op="sendrc", d=0, rc=-1)); ops.append(dict(op="send", c=0, b=b)); continue
            if rng.random() < .1: ops.append(dict(op="push", d=0, r=r)); ops.append(dict(op="sendrc", d=0, rc=rng.choice([-1, -8]))); ops.append(dict(op="req", c=0, b=b, keep=k + 1)); break
            if w < .3: ops.append(dict(op="send", c=0, b=b)); ops.append(dict(op="adv", ms=5))
            elif w < .6: ops.append(dict(op="push", d=0, r=r)); ops.append(dict(op="recv", c=0, w=100)); ops.append(dict(op="adv", ms=100))
            else:
                ops.append(dict(op="turn", d=0, r=r))
                ops.append(dict(op="req", c=0, b=b, keep=k + 1)); ops.append(dict(op="gshow", h=k + 1))
        ops.append(dict(op="stop", c=0))
        # turns are consumed by the next receive after any transmission: sends must not precede recvs
        sends = [o for o in ops if o["op"] == "send"]
        if sends and any(o["op"] in ("recv", "turn") for o in ops): ops = [o for i, o in enumerate(ops) if o["op"] != "send" and not (o["op"] == "sendrc" and ops[i + 1]["op"] == "send")]
        ops = [o for o in ops if o["op"] != "_send"]
        out.append(dict(flags=fl, ops=ops))
    return out
