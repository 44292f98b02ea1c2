"""Scenarios for the command line engine (spec/Cli)."""
def crlf(rng, x): return x + ("\r\n" if rng.random() < .08 else "\n")
def word(rng): return "".join(rng.choice("abcXYZ019$.,-=#@/\\'\"") for _ in range(rng.choice([1, 2, 4, 9])))
CMDS = ["alpha", "Beta", "m1", "M2", "fail", "use", "source", "help", "?", "up", "exit", "quit", "Gamma", "deep", "beta"]
def case(rng, s): return s if rng.random() < .7 else "".join(rng.choice([c.lower(), c.upper()]) for c in s)
def line(rng, files, depth):
    r = rng.random()
    if r < .05: return rng.choice(["", "  ", "\t", "# alpha", "#", "@ hello", "@", "@m1 x", "#exit", " \t "])
    if r < .1: return rng.choice([word(rng), "al", "alphaa", "m", "alpha1 2", " # x", "hel", "betaa", "zap zap"])
    w = []
    for k in range(rng.choice([0, 0, 0, 1, 2])): w.append(case(rng, rng.choice(["m1", "M2", "m1", "deep"])))
    r = rng.random()
    c = rng.choice(["alpha", "alpha", "Beta", "Gamma", "beta", "fail", "use", "m1", "M2", "deep"]) if r < .62 else rng.choice(["up", "up", "help", "?", "help"]) if r < .84 else "source" if r < .96 else rng.choice(["exit", "quit", "EXIT"])
    w.append(case(rng, c))
    if c == "source":
        if rng.random() < .92: w.append(rng.choice(files) if files and rng.random() < .9 else rng.choice(["nofile", "F1", "f9"]))
        if rng.random() < .1: w.append("extra")
    elif c in ("help", "?"):
        if rng.random() < .6: w.append(case(rng, rng.choice(CMDS + ["zip"])))
    elif c not in ("m1", "M2", "deep", "up", "exit", "quit"):
        n = rng.choice([0, 0, 1, 2, 3, 7]) if rng.random() < .985 else rng.choice([297, 298, 299, 300, 301, 320])
        w += [rng.choice("ab1") for _ in range(n)] if n > 20 else [word(rng) for _ in range(n)]
    s = " ".join(w) if len(w) > 50 else w[0] + "".join(rng.choice([" ", " ", " ", "  ", "\t", " \t "]) + x for x in w[1:])
    if rng.random() < .05: s = rng.choice([" ", "\t", "  "]) + s
    if rng.random() < .05: s += rng.choice([" ", "\t"])
    return s[:1390]
def gen(rng, n):
    out = []
    for i in range(n):
        nf = rng.choice([0, 1, 2, 2, 3]); files = {}
        names = ["f%d" % k for k in range(1, nf + 1)]
        for k, nm in enumerate(names):  # a file may run only those before it
            files[nm] = [line(rng, names[:k], 1) for _ in range(rng.choice([0, 1, 2, 4, 8]))]
        user = [line(rng, names, 0) for _ in range(rng.choice([0, 1, 3, 6, 12]))]
        # leave early less often
        user = [x for x in user if x.split()[:1] and x.split()[0].lower() not in ("exit", "quit") or rng.random() < .5]
        ops = []
        for nm in names:
            t = "".join(crlf(rng, x) for x in files[nm])
            if rng.random() < .2: t = t.rstrip("\r\n") if files[nm] and files[nm][-1] else t
            ops.append(dict(op="file", n=nm, b=list(t.encode())))
        f = rng.choice(["", "", rng.choice(names) if names else "", "nofile" if rng.random() < .3 else ""])
        t = "".join(crlf(rng, x) for x in user)
        ops.append(dict(op="cli", b=list(t.encode()), f=f or None))
        out.append(dict(ops=ops, files=files, f=f))
    return out
def trace(s, evs):
    ev = []
    for e in evs:
        k = e["e"]
        if k == "call":
            if s["ops"][e["i"]]["op"] == "cli": ev.append(dict(e="cli", f=s["f"]))
        elif k == "run": ev.append(dict(e="log", a=e["a"]) if e["m"] == "" else e)
        elif k == "line": ev.append(dict(e="line", s=e["s"].rstrip("\r")))
        elif k == "ret":
            if e["op"] == "cli": ev.append(dict(e="over"))
        else: ev.append(e)
    return dict(files=s["files"], ev=ev)
