"""Scenarios for the Volvo commands (spec/V850)."""
import os, re
import d_prog
from d_prog import W, case, num, BADNUM
from d_vag import blk
from d_iso14230 import F
HERE = os.path.dirname(os.path.abspath(__file__))
FL = d_prog.FL | F["FULL"]
NOCODE = re.compile(r"\w+\.[ch]:\d+: Illegal error code: 0x00\n\.\n")   # meant for developers
TXT = open(os.path.join(HERE, "..", "spec", "V850Data.tla")).read()
ECUS = [(int(a), n) for a, n in re.findall(r"\[a \|-> (\d+), n \|-> \"([^\"]*)\"", TXT)]
NAME = dict(ECUS)
CODES = {}
for nm, body in re.findall(r"^T_(\w+) == <<(.*?)>>$", TXT, re.S | re.M):
    CODES[nm] = [(int(r), int(s)) for r, s in re.findall(r"\[r \|-> (\d+), s \|-> (-?\d+)", body)]
PRE = dict((int(a), p) for a, p in re.findall(r"\[a \|-> (\d+), .*p \|-> \"([^\"]*)\"\]", TXT))
def codes(a): return CODES.get(NAME.get(a), [])
def hx(b): return "".join("%02x" % x for x in b)
def frame(a, pay):
    f = [0x80 + len(pay) + 1, 0x13, a] + pay
    return f + [sum(f) & 255]
class Car:
    """the car's control units: what they answer to each request, in the order asked"""
    def __init__(s, rng, bad): s.rng = rng; s.bad = bad; s.t = {}; s.order = []
    def put(s, a, req, pay, more=(), good=False):
        """one more answer of unit a to req"""
        rng = s.rng; turn = []
        if pay is not None and not good and rng.random() < s.bad:
            r = rng.random()
            if r < .25: pay = [0x7f, req[0], rng.choice([0x10, 0x12, 0x22, 0x78])]
            elif r < .4: pay = None
            elif r < .55: pay = pay[:rng.randint(1, len(pay))]
            elif r < .7: k = rng.randrange(min(len(pay), 4)); pay = pay[:k] + [pay[k] ^ rng.choice([1, 0x40, 0xff])] + pay[k + 1:]
            elif r < .85: pay = pay + [rng.randrange(256)]
            else: pay = "short"
            more = ()
        if pay == "short": turn.append((rng.choice([5, 300]), [0x81, 0x13, a, 0x10][:rng.randint(1, 4)]))
        else:
            if pay is not None or rng.random() < .3:
                for _ in range(rng.choice([0, 0, 0, 0, 0, 1, 3])): turn.append((rng.choice([10, 400]), frame(a, [0x7e, req[0], 0x23])))
            if pay is not None and len(pay) < 62: turn.append((rng.choice([5, 30, 700]), frame(a, pay)))
            if pay is not None: turn += [(20, frame(a, m)) for m in more]
        k = (a, tuple(req))
        if k not in s.t: s.t[k] = []; s.order.append(k)
        s.t[k].append(turn)
    def ops(s):
        o = []
        for k in s.order:
            a, req = k
            o.append("tab d=0 rq=..%02x13%s x=1 r=%s" % (a, hx(req), "|".join(",".join("%d:%s" % (g, hx(m)) for g, m in t) or "-" for t in s.t[k])))
        return o
class S:
    """one session: user input, control units, start-up conversations, keys"""
    def __init__(s, rng, bad, able=True, kwp=False):
        s.rng = rng; s.w = W(rng); s.car = Car(rng, bad); s.init = []; s.open = []; s.keys = ""; s.link = None; s.a = 0; s.read = False; s.able = able; s.bad = bad
        s.kwp = kwp; s.blk = []; s.iface = True; s.other = []; s.files = []; s.mask = 255
    def cmd(s, t):
        s.w.cmd("850", t); return s
    def data(s, n): return [s.rng.choice([0, 1, 127, 128, 254, 255, s.rng.randrange(256), s.rng.randrange(256)]) for _ in range(n)]
    # ------------------------------------------------------------ connecting
    def try_conn(s, a, ok=None):
        """one attempt reaches the line; whether it will succeed"""
        rng = s.rng
        if not s.iface or not s.mask & 1: return False
        if rng.random() < .04 * (s.bad > 0): s.open.append(rng.choice([-1, -7, -2, -8])); return False
        s.open.append(0)
        if a != 0x10 and not s.able: return False
        ok = rng.random() > .5 * s.bad if ok is None else ok
        if a == 0x10:
            if not s.kwp or not ok: s.init.append(rng.choice(["rc=-1", "rc=0", "rc=0 r=5:ab", "rc=0 r=5:01,5:8a", "rc=0 r=5:ab,5:01", "rc=0 r=5:aa,5:02"])); ok = False
            else: s.init.append("rc=0 r=5:ab,5:02")
            if s.init[-1].endswith("8a"): s.kid = False
        else:
            s.init.append("rc=0" + rng.choice(["", " kb1=211 kb2=176"]) if ok else rng.choice(["rc=-1", "rc=-8", "rc=-16", "rc=0 kb1=1 kb2=138", "rc=0 kb1=211 kb2=177"]))
        return ok
    def connect(s, word, a, ok=None):
        s.cmd(case(s.rng, "connect") + " " + word)
        if s.link: return
        if a == 0x10 and s.kwp and s.iface: s.conn_kwp()
        elif s.try_conn(a, ok): s.up(a)
    def up(s, a):
        s.link = "d2"; s.a = a; s.read = False
        for _ in range(3): s.car.put(a, [0xa1], [0xe1] + s.data(s.rng.choice([0, 1, 3])))
    def stop(s): s.car.put(s.a, [0xa0], s.rng.choice([[0xe0], [0xe0], [0xe0, 1], None, [0x7f, 0xa0, 0x10]]), good=True)
    def word(s, a):
        rng = s.rng
        if a in NAME and rng.random() < .7: return case(rng, NAME[a])
        return rng.choice(["%d", "0x%x", "0X%02X", "%d", "0%o"]) % a
    def disconnect(s):
        if s.link == "d2": s.stop()
        s.cmd(case(s.rng, "disconnect"))
        if s.link in ("d2", "kwp"): s.link = None; s.read = False
    def diag_disc(s):
        if s.link == "d2": s.stop()
        s.w.cmd("diag", "disconnect"); s.link = None
    # ------------------------------------------------------------ KWP71 side
    def conn_kwp(s):
        rng = s.rng; s.open.append(0); r = rng.random()
        if r < .08: s.init.append(rng.choice(["rc=-1", "rc=0"])); return
        if r < .18:
            s.init.append("rc=0 r=" + rng.choice(["5:01,5:8a", "5:ab,5:01", "5:aa,5:02", "5:2b,5:02"])); s.blk += [blk(0xf6, s.data(3)), blk(9)]; return
        s.init.append("rc=0 r=5:ab,5:02"); s.seq = 0
        dig = lambda n: [rng.randrange(48, 58) for _ in range(n)]
        ids = [dig(10), s.data(rng.choice([10, 4])), dig(7) + s.data(3), s.data(10)][:rng.choice([1, 2, 3, 4, 4, 4])]
        if rng.random() < .25:
            k = rng.randrange(len(ids)); ids[k] = rng.choice([ids[k][:9], ids[k] + [49], ids[k][:3] + [rng.choice([47, 58, 0, 200])] + ids[k][4:], []])
        if rng.random() < .05: ids = []
        for d in ids: s.kb(blk(rng.choice([0xf6, 0xf6, 0xfc]), d))
        s.kb(blk(9)); s.link = "kwp"; s.a = 0x10; s.read = False
        if rng.random() < .05: s.blk.pop()
    def kb(s, b): s.blk.append(b); s.seq += 1
    def naks(s):
        if s.rng.random() < s.bad * .3:
            for _ in range(s.rng.choice([1, 1, 2, 4, 5])): s.kb(blk(10, [2 * s.seq & 255] if s.rng.random() < .8 else s.data(s.rng.choice([0, 1]))))
    def kans(s, t, d, more=()):
        """answer of the old control unit"""
        rng = s.rng; r = rng.random()
        if r < s.bad * .3:
            for _ in range(rng.choice([1, 1, 2, 4, 5, 6])): s.kb(blk(10, [2 * s.seq & 255]))
        if r > 1 - s.bad * .25: s.kb(blk(10, rng.choice([[], [(2 * s.seq + 2) & 255], s.data(1)]))); return False
        if r > 1 - s.bad * .45: d = d[:-1] if d else [1]
        elif r > 1 - s.bad * .6: t ^= rng.choice([1, 2, 0x80])
        elif r > 1 - s.bad * .65: s.blk.append(None); return False
        if t in (9, 10): s.kb(blk(t)); return True
        s.kb(blk(t, d)); s.naks()
        for m in more: s.kb(blk(t, m)); s.naks()
        s.kb(blk(9)); return True
    # ------------------------------------------------------------ requests
    def ask(s, req, pay, more=()):
        if s.link == "d2": s.car.put(s.a, req, pay, more)
    def mem(s, a, n):
        while n > 0:
            m = min(n, 8)
            if s.link == "d2": s.ask([0xa7, 0, a >> 8 & 255, a & 255, 1, m], [0xe7, 0, a >> 8 & 255, a & 255] + s.data(m))
            elif s.link == "kwp": s.kans(0xfe, s.data(m))
            n -= m; a = a + 8 & 0xffff
    def value(s, ns, i, n=None):
        rng = s.rng
        if n is None: n = rng.choice([1, 1, 2, 2, 4, 5, 8, 20, 21, 30]) if rng.random() < .95 else 0
        d = s.data(n)
        if s.a == 0x6e and ns == 3:      # the temperature sensor of the gearbox, in its working range
            v = rng.choice([0, 1, 100, 511, 600, rng.randrange(600)])
            while v and not (1000 * v % (1023 - v) > 4 and (1023 - v) - 1000 * v % (1023 - v) > 4): v = rng.randrange(600)
            if i == 0x0c and n >= 4: d[:2] = [v >> 8, v & 255]
            for k in range(n - 3):
                if i * 256 + k == 0xc00 and k: d[k:k + 2] = [v >> 8, v & 255]
        return d
    def item(s, ns, i, n=None):
        if s.link == "kwp": s.kans(0xfb, s.data(2)); return
        d = s.value(ns, i, n)
        if ns == 3: s.ask([0xa5, i, 1], [0xe5, i] + d)
        elif ns == 5: s.ask([0xb9, i], [0xf9, i] + d)
        else: s.ask([0xad, i, 0], [0xed, i] + d)
    def peekarg(s):
        rng = s.rng; r = rng.random()
        if r < .1: return rng.choice(BADNUM + ["0x10000", "65536", "70000w", "0xffffw", "0xfffdl", "5x", "5ww", "5.", "5.4", "0x10.0xf", "1.65536", "5..6", "w", ".5", "-1", "5.-1", "5. 6", "0x", "0xg", "08", "12a"]), None
        a = rng.choice([0, 1, 0x36, 0x35, 0x30, 0xff, 0x100, 0xfff8, 0xffff, 0xfffe, rng.randrange(65536)])
        n = rng.choice([1, 1, 2, 4, 0, 7, 8, 9, 16, 17, 40])
        f = lambda v: rng.choice(["%d", "0x%x", "0x%04X", "0%o"]) % v
        if r < .35 or n == 0: n = 1; t = f(a)
        elif r < .45: n = 2; t = f(a) + rng.choice("wW")
        elif r < .55: n = 4; t = f(a) + rng.choice("lL")
        else: t = f(a) + rng.choice(".-") + f(min(a + n - 1, 65535)); n = min(a + n - 1, 65535) - a + 1
        return t, (a, n) if a + n - 1 <= 65535 else None
    def idarg(s):
        rng = s.rng; r = rng.random()
        if r < .08: return rng.choice(BADNUM + ["256", "0x100", "-1", "+5", "5x", "5.", "08", "*", "all", "live", "stream"]), None
        i = rng.choice({0x7a: [2, 3, 10, 0x10, 0x18, 0x19, 0x1a, 1, 0x17], 0x6e: [5, 0x0c, 4, 0x0b]}.get(s.a, [0, 255]) + [rng.randrange(256), 0, 255])
        return rng.choice(["%d", "0x%x", "0x%02X", "0%o"]) % i, i
    def frarg(s):
        rng = s.rng; r = rng.random(); cs = codes(s.a); pr = PRE.get(s.a, "???")
        if cs and r < .5:
            raw, sf = rng.choice(cs)
            if sf > 0: return case(rng, pr) + rng.choice(["-", "-", ""]) + rng.choice(["%d", "%03d"]) % sf, dict((y, x) for x, y in reversed(cs))[sf]
        if r < .6: return rng.choice([pr + "-999", pr + "-", pr, "EFI-112", "ABS-311", "XYZ-1", "AT", pr + "-1x", pr + "--1", pr + "-0", pr + "-100000", "EFI-0112", "at-+5", "a", "-311", "AT-40000", "AT 311", "ABS_311"]), None
        if r < .66: return rng.choice(BADNUM + ["256", "0x100", "-1", "400", "09"]), None
        if rng.random() < .3: i = rng.choice([99, 100, 101, 98, 255, 9]); return "%d" % i, i
        i = rng.choice([x for x, y in cs] + [rng.randrange(256), 0, 99, 100, 255])
        return rng.choice(["%d", "0x%x", "0x%02x", "0%o"]) % i, i
    def family(s, c):
        rng = s.rng; ns = dict(peek=0, read=3, adc=2, readnv=5, freeze=6)[c]
        n = rng.choice([1, 1, 1, 2, 3, 5]); its = []; ok = True; ts = []
        for _ in range(n):
            if ns == 0 or (ns == 3 and rng.random() < .25): t, v = s.peekarg(); it = None if v is None else (0,) + v; t = ("*" if ns else "") + t
            elif ns == 6: t, v = s.frarg(); it = None if v is None else (6, v)
            else: t, v = s.idarg(); it = None if v is None else (ns, v)
            ts.append(t)
            if it is None: ok = False
            its.append(it)
        rep = rng.choice(["", "", "", "live", "stream"])
        last = ts[-1] if ts else ""
        if rep: ts.append(case(rng, rep))
        if rng.random() < .04: ts = rng.choice([[], ["live"], ["stream"], ["live", "stream"], ["5", "live", "live"], ["5", "stream", "live"], ["1", "live", "2"]]); ok = False
        s.cmd((case(rng, c) + " " + " ".join(ts)).rstrip(" "))
        want = {3: "d2", 2: "kwp", 5: "d2", 6: "d2"}.get(ns)
        if not s.link or s.link == "other" or (want and s.link != want) or any(x.find(" ") >= 0 for x in ts): return
        if not ok and rep == "" and ns in (0, 2, 3) and last in ("live", "stream"): return
        if not ok: return
        times = 1; s.keys += rng.choice("0001")
        if rep and ns in (0, 2, 3): times = rng.choice([1, 1, 2, 3]); s.keys += "0" * (times - 1) + "1"
        elif rep: return
        for _ in range(times):
            for it in its: s.mem(it[1], it[2]) if it[0] == 0 else s.item(it[0], it[1])
    def dtcs(s, cs=None):
        rng = s.rng
        if cs is None:
            n = rng.choice([0, 0, 1, 1, 2, 3, 5, 11, 12, 13, 20]); pool = [x for x, y in codes(s.a)]
            cs = [rng.choice(pool) if pool and rng.random() < .75 else rng.randrange(256) for _ in range(n)]
        if s.link == "d2":
            m = [[0xee, 1] + s.data(rng.choice([1, 3, 12]))] if len(cs) == 12 and rng.random() < .7 else ()
            s.ask([0xae, 1], [0xee, 1] + cs, m)
        elif s.link == "kwp":
            if not cs: return s.kans(0xfc, [0])
            bl = [x for c in cs[:2] for x in [c] + s.data(4)]
            if rng.random() < .1: bl = bl[:-rng.randint(1, 4)]
            return s.kans(0xfc, bl, [s.data(5)] if len(cs) > 2 else ())
        return cs
    def yes(s, q=None):
        t = q or s.rng.choice(["y", "yes", "Y", "YES", "y", "yes", "yes", "n", "no", "", "yep", "q", "ye"]); s.w.out.append(t); return t.lower() in ("y", "yes")
    def idents(s):
        rng = s.rng
        ch = lambda: rng.choice([32, 65, 66, 48, 49, 126, 46])
        d = [0] + [rng.randrange(256) for _ in range(4)] + [ch(), ch(), ch()] + [rng.randrange(256) for _ in range(4)] + [ch(), ch(), ch()]
        r = rng.random()
        if r < .12: d[rng.choice([0, 5, 6, 7, 12, 13, 14])] = rng.choice([31, 127, 0, 10, 200])
        elif r < .2: d = rng.choice([d[:14], d + [1], d[:1], []])
        s.ask([0xb9, 0xf0], [0xf9, 0xf0] + d)
        if s.a == 0x7a:
            o = [rng.randrange(48, 58) for _ in range(10)]; r = rng.random()
            if r < .15: o[rng.randrange(10)] = rng.choice([47, 58, 65, 0])
            elif r < .25: o = rng.choice([o[:9], o + [48], []])
            s.ask([0xb9, 1], [0xf9, 1] + o)
    # ------------------------------------------------------------ commands
    def do(s, k):
        rng = s.rng; x = " x" if rng.random() < .04 else ""
        if k in ("peek", "read", "adc", "readnv", "freeze"):
            if k == "freeze" and rng.random() < .2:
                s.cmd("freeze " + case(rng, "all"))
                if s.link == "d2":
                    s.keys += rng.choice("01")
                    for c in (s.dtcs() or [])[:12]: s.item(6, c)
                return
            s.family(k)
        elif k == "ping":
            s.cmd(case(rng, "ping") + x)
            if x: return
            if s.link == "kwp": s.kans(9, []) if rng.random() < .8 else s.kans(0xf6, s.data(1))
            s.ask([0xa1], rng.choice([[0xe1], [0xe1, 4]]))
        elif k == "id":
            s.cmd(case(rng, "id") + x)
            if not x and s.link == "d2": s.idents()
        elif k == "dtc":
            t = rng.choice(["", "", " tips", " TIPS"]) + x
            if rng.random() < .03: t = rng.choice([" tip", " tips now", " ?"])
            s.cmd(case(rng, "dtc") + t)
            if t.strip().lower() in ("", "tips"): s.dtcs(); s.read = None
        elif k == "cleardtc":
            s.cmd(case(rng, "cleardtc") + x)
            if x or s.link not in ("d2", "kwp"): return
            if s.read is None: s.clear_maybe(); return
            if not s.yes(): return
            if not s.read and not s.yes(): return
            s.clear()
        elif k == "resetsrl":
            s.cmd(case(rng, "resetsrl") + x)
            if x or not s.yes(): return
            if s.link == "other": return          # (kept apart: see gen)
            if s.link and s.a != 0x51:
                if s.link == "d2": s.stop()
                s.link = None
            if not s.link and s.try_conn(0x51): s.up(0x51)
            if s.link == "d2":
                old = rng.random() < .5
                s.ask([0xb0, 0x30], [0xf0, 0x30] if old else [0x7f, 0xb0, 0x11]); s.ask([0xb2, 0x30], rng.choice([[0xf2, 0x30], None, [0x7f, 0xb2, 0x22]]))
        elif k == "test":
            t = rng.choice(["fan1", "fan2", "FAN1", "Fan2", "fan3", "", "fan1 x", "fan"])
            s.cmd((case(rng, "test") + " " + t).rstrip())
            if s.link == "d2" and s.a == 0x7a and t.lower() in ("fan1", "fan2"):
                i = 0x0e if t.lower() == "fan1" else 0x1f
                s.ask([0xb0, i, 0x32, 3], [0xf0, i])
        elif k == "sendreq":
            r = rng.random()
            if r < .06: s.cmd("sendreq")
            elif r < .2: s.cmd("sendreq " + " ".join(rng.choice(BADNUM + ["256", "-1", "5", "300", "0x41"]) for _ in range(rng.randint(1, 4))))
            else:
                n = rng.choice([1, 1, 2, 3, 6, 20, 61, 62, 63, 64, 254, 255, 256, 260])
                if s.link == "kwp": n = min(n, 40) if n < 200 else n
                b = [rng.randrange(256) for _ in range(n)] if n < 200 else [rng.randrange(10) for _ in range(n)]
                if n < 200: b[0] = rng.choice([0x20, 0x99, 0xb5])
                if s.link == "kwp" and rng.random() < .9: b[0] = rng.choice([7, 5, 0x29, 0xf0])
                s.cmd("sendreq " + " ".join(num(rng, x) if n < 200 else "%d" % x for x in b))
                if s.link == "kwp" and n < 250: s.kans(rng.choice([0xfc, 0xfe, 9, 10]), s.data(rng.choice([0, 1, 5])), [s.data(2)] if rng.random() < .3 else ())
                elif n <= 62: s.ask(b, [b[0] ^ 0x40] + s.data(rng.choice([0, 1, 5, 58])))
        elif k == "bad": s.cmd(rng.choice(["pings", "connectt", "dtcs", "fre", "reads 5", "clear", "zap", "scan"]))
        elif k == "conn?": s.cmd("connect" + rng.choice(["", " ?", " 1 2", " nosuch", " 128", " 0x80", " -1", " 1x", " m4", " 0x", " 08"]))
        elif k == "show": s.w.cmd("set", rng.choice(["show", "testerid", "destaddr", "speed", "l2protocol", "initmode"]))
        elif k == "scan-all":
            s.cmd(case(rng, "scan-all") + x)
            if x or s.link: return
            s.scanall()
    def scanall(s):
        for a, n in ECUS:
            if a == 0x10: continue
            if s.try_conn(a, None if s.rng.random() < .5 else False): s.up(a); s.idents(); s.dtcs(); s.stop(); s.link = None
    def clear_maybe(s):
        """the codes may or may not count as read"""
        s.w.out += ["y", "y"] if s.rng.random() < .5 else ["n", "", ""]
        s.clear()
    def clear(s):
        cs = s.dtcs()
        if s.link == "d2" and cs: s.ask([0xaf, 1], s.rng.choice([[0xef, 1], [0xef, 1], [0xef, 1], [0xef, 0], [0x7f, 0xaf, 0x22]]))
        elif s.link == "kwp" and cs: s.kans(s.rng.choice([9, 9, 9, 10]), [])
    def scen(s, **kw):
        ops = ["dnew d=0 name=MOCK", "dev d=0 flags=%d mask=%d" % (FL if s.able else FL & ~F["FULL"], s.mask)]
        blks = []
        for b in s.blk:
            if b is None: break
            blks.append(b)
        if s.kwp: ops.append("kw d=0 g=2")
        ops += ["init d=0 " + x for x in s.init]
        if any(s.open): ops += ["openrc d=0 rc=%d" % x for x in s.open]
        ops += s.car.ops() + s.other
        if s.keys: ops.append("keys r=" + s.keys)
        txt = "".join(x + "\n" for x in s.w.out)
        kb = [[int((re.search(r"kb%d=(\d+)" % i, x) or [0, 0])[1]) for i in (1, 2)] for x in s.init]
        return dict(mask=s.mask, able=s.able, kb=kb, ops=[dict(op="raw", _t=x) for x in ops] + blks + [dict(op="prog", b=list(txt.encode()))] + [dict(op="slurp", n=f) for f in s.files], **kw)
D2CMDS = ["ping", "id", "dtc", "dtc", "cleardtc", "read", "read", "read", "peek", "peek", "readnv", "freeze", "freeze", "test", "sendreq", "adc"]
ANY = D2CMDS + ["resetsrl", "bad", "conn?", "show"]
def begin(s, p=.96):
    if s.rng.random() < p: s.w.cmd("set", "interface MOCK"); s.iface = True
def other(s):
    """a session that is not the car's"""
    rng = s.rng; tgt = rng.choice([0x51, 0x33, 0x7a])
    if not s.iface or s.mask != 255: return
    l1, l2 = rng.choice([("RAW", "RAW"), ("J1850-VPW", "SAEJ1850")])
    s.w.cmd("set", "l1protocol " + l1); s.w.cmd("set", "l2protocol " + l2); s.w.cmd("set", "destaddr %d" % tgt)
    s.w.cmd("diag", "connect"); s.open.append(0); s.link = "other"; s.a = tgt
    if l2 == "RAW": s.init.append("rc=0")
def gen_d2(rng, n):
    out = []
    for _ in range(n):
        s = S(rng, rng.choice([0, 0, .1, .25]), able=rng.random() > .04)
        if rng.random() < .06: s.mask = rng.choice([0xfe, 2, 0x84])
        begin(s)
        left = rng.randint(2, 14); fav = rng.choice([0x7a, 0x7a, 0x6e, 0x6e, 0x51, 1, 0x58, rng.choice(ECUS)[0], rng.randrange(128)])
        while left > 0:
            left -= 1; r = rng.random()
            if not s.link:
                if r < .6:
                    a = fav if rng.random() < .8 else rng.choice([rng.randrange(128), 0x10, 0, 127])
                    s.connect(s.word(a), a)
                elif r < .66: other(s)
                elif r < .70: s.do("scan-all")
                else: s.do(rng.choice(ANY))
            elif s.link == "other":
                if r < .4: s.diag_disc()
                elif r < .5: s.cmd("resetsrl"); s.w.out.append(rng.choice(["y", "n"]))
                elif r < .6: s.connect(s.word(fav), fav)
                elif r < .65: s.disconnect()
                else: s.do(rng.choice(ANY[:-4]))
            elif r < .06: s.disconnect()
            elif r < .08: s.diag_disc()
            elif r < .12: s.connect(s.word(fav), fav)
            elif r < .14: s.do("scan-all")
            else: s.do(rng.choice(ANY))
        if rng.random() < .35:
            if s.link == "d2": s.stop()
            s.w.cmd("", rng.choice(["exit", "quit"]))
        elif s.link == "d2": s.stop()
        out.append(s.scen())
    return out
def gen_kwp(rng, n):
    out = []
    for _ in range(n):
        s = S(rng, rng.choice([0, 0, .1, .2]), kwp=True); begin(s, 1)
        if rng.random() < .95: s.connect(rng.choice(["m44old", "16", "0x10"]), 0x10)
        for _ in range(rng.randint(1, 9)):
            r = rng.random()
            if not s.link and r < .5: s.connect("m44old", 0x10)
            elif r < .05: s.disconnect()
            elif r < .07: s.diag_disc()
            elif r < .1: s.connect("m44", 0x7a) if s.link else s.do("ping")
            else: s.do(rng.choice(["peek", "peek", "adc", "adc", "dtc", "dtc", "cleardtc", "id", "ping", "sendreq", "read", "readnv", "freeze", "test", "dtc"]))
            if len(s.blk) > 900: break
        if rng.random() < .3: s.w.cmd("", "exit")
        out.append(s.scen())
    return out
def gen_sweep(rng, every):
    """every trouble code of every control unit"""
    out = []
    for a, nm in ECUS:
        cs = codes(a)
        if a == 0x10 or not cs: continue
        raws = sorted({r for r, _ in cs} | ({0, 255} if not every else set(range(256))))
        s = S(rng, 0); begin(s, 1); s.connect(nm, a, True)
        for k in range(0, len(raws), 11):
            for t in ("", " tips"): s.cmd("dtc" + t); s.dtcs(raws[k:k + 11])
        s.cmd("disconnect"); s.stop(); out.append(s.scen())
        fs = [x for x in sorted({y for _, y in cs}) if x > 0]
        s = S(rng, 0); begin(s, 1); s.connect(nm, a, True)
        for f in fs:
            s.cmd("freeze %s-%d" % (PRE[a], f)); raw = dict((y, x) for x, y in reversed(cs))[f]; s.keys += "0"; s.item(6, raw)
        s.cmd("disconnect"); s.stop(); out.append(s.scen())
    return out
def gen_values(rng, rounds):
    """every live value with a known meaning, in answers of every interesting length"""
    out = []
    for a, ids in ((0x6e, [5, 0x0c]), (0x7a, [2, 3, 0x0a, 0x10, 0x18, 0x19, 0x1a])):
        for _ in range(rounds):
            s = S(rng, 0); begin(s, 1); s.connect("0x%x" % a, a, True)
            for i in ids:
                for n in rng.sample([1, 2, 3, 4, 5, 6, 20], 3) + [4]:
                    s.cmd("read 0x%x" % i); s.keys += "0"; s.item(3, i, n)
            for x in (0x36, 0x30): s.cmd("peek 0x%x" % x); s.keys += "0"; s.mem(x, 1)
            s.cmd("disconnect"); s.stop(); out.append(s.scen())
    return out
def gen_dump(rng, n):
    out = []
    for i in range(n):
        s = S(rng, 0); begin(s, 1); a = rng.choice([0x7a, 0x6e, 0x33]); s.connect(s.word(a), a, True)
        nm = "dump%d.txt" % i
        if rng.random() < .3: s.cmd(rng.choice(["dumpram", "dumpram a b", "dumpram nosuch/dir/x", "dumpram nosuch/dir/x FAST", "dumpram a fast x"]))
        s.cmd("dumpram %s %s" % (nm, case(rng, "fast")))
        lo = rng.choice([0, 8, 64, 256])
        for ad in list(range(0, lo, 8)) + [x for x in range(0xf000, 0x10000, 8) if rng.random() < .9]:
            s.car.put(a, [0xa7, 0, ad >> 8, ad & 255, 1, 8], [0xe7, 0, ad >> 8, ad & 255] + s.data(rng.choice([8] * 30 + [7, 9])))
        s.files.append(nm); s.stop(); out.append(s.scen())
    return out
def gen(rng, quick):
    k = 1 if quick else 14
    return gen_d2(rng, 330 * k) + gen_kwp(rng, 90 * k) + gen_sweep(rng, not quick) + gen_values(rng, 6 * k) + gen_dump(rng, 2 if quick else 12)
def trace(s, evs):
    ev = []; on = False; k = 0
    for e in evs:
        n = e["e"]
        if n == "ib": e = dict(e, kb=s["kb"][k] if k < len(s["kb"]) else [0, 0]); k += 1
        if not on:
            if n == "out" and e["s"].endswith("freediag> "): on = True; ev.append(dict(e="started"))
            continue
        if n == "out": d_prog.keepout(ev, re.sub("\x1b\\[(\\d+)F", r"<F\1>", NOCODE.sub("", e["s"]).replace("\x1b[K", "<K>")))
        elif n == "line": ev.append(dict(e="line", s=e["s"].rstrip("\r")))
        elif n == "ret": ev.append(dict(e="over", open=e["open"], timer=e["timer"]) if "open" in e else dict(e="file", s=e["s"]))
        elif n == "tx":
            p = ev[-1] if ev else None
            if p and p["e"] == "tx" and p.get("one") and len(e["b"]) == 1: p["b"] = p["b"] + e["b"]
            else: ev.append(dict(e="tx", b=e["b"], rc=e["rc"], one=len(e["b"]) == 1))
        elif n == "key":
            if e["v"]: ev.append(dict(e="key"))
        elif n in ("rx", "tcreate", "tdelete", "wm", "call"): pass
        elif n == "in" and e["err"]: ev.append(dict(e="inerr"))
        else: ev.append({a: b for a, b in e.items() if a not in ("t", "th", "d")})
    for e in ev: e.pop("one", None)
    return dict(mask=s["mask"], able=s["able"], ev=ev)
