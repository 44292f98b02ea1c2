------------------------------ MODULE Serial -------------------------------
(* Interfaces on a serial port other than the ELM: the generic K-line cable   *)
(* (DUMB), the BR-1 and the Multiplex Engineering T16. What each operation    *)
(* does to the port is collected and judged when the operation returns.       *)
EXTENDS VBytes
VARIABLES op, t0, H,   \* operation in progress, the time it began, what it has done so far
          d,           \* the device: name, configuration, open, protocol
          pt,          \* the port's control lines and speed
          st           \* what the driver keeps between operations
vars == <<op, t0, H, d, pt, st>>
Fresh == [at |-> "op", kb |-> <<>>, req |-> <<>>, fr |-> 0, buf |-> <<>>, part |-> <<>>, wake |-> FALSE, ser |-> <<>>]
NoPort == [dtr |-> 0, rts |-> 0, ser |-> <<>>]
Init0 == op = <<>> /\ t0 = 0 /\ H = <<>> /\ d = [n |-> "", port |-> "", v |-> 0, open |-> FALSE, p |-> 0] /\ pt = NoPort /\ st = Fresh
-----------------------------------------------------------------------------
E_IOCTL == -6
Lesser(a, b) == IF a < b THEN a ELSE b
J(ok, s) == [ok |-> ok, st |-> s]
Kinds(K) == SelectSeq(H, LAMBDA e : e.e \in K)
Did(k) == Kinds({k}) # <<>>
Bad(k) == \E i \in DOMAIN H : IF H[i].e = k THEN H[i].ok = 0 ELSE FALSE
\* the dialogue: adjacent writes and adjacent reads joined
Join(a, e) ==
  IF a # <<>> /\ a[Len(a)].e = e.e THEN SubSeq(a, 1, Len(a) - 1) \o <<[a[Len(a)] EXCEPT !.b = @ \o e.b, !.t = e.t, !.t1 = IF a[Len(a)].b = <<>> /\ e.e = "rd" THEN e.t1 ELSE @, !.err = IF e.e = "rd" THEN e.err ELSE 0, !.ok = IF e.e = "tx" /\ e.ok = 0 THEN 0 ELSE @]>>
  ELSE Append(a, [e |-> e.e, b |-> e.b, t |-> e.t, t1 |-> IF e.e = "rd" THEN e.t1 ELSE 0, err |-> IF e.e = "rd" THEN e.err ELSE 0, ok |-> IF e.e = "tx" THEN e.ok ELSE 1])
RECURSIVE Fold(_, _)
Fold(a, s) == IF s = <<>> THEN a ELSE Fold(Join(a, Head(s)), Tail(s))
D == Fold(<<>>, Kinds({"tx", "rd"}))
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s).b \o Cat(Tail(s))
TxB == Cat(Kinds({"tx"}))
RdB == Cat(Kinds({"rd"}))
LastOf(k) == LET s == Kinds({k}) IN s[Len(s)]
N81(e, v) == e.v = v /\ e.db = 8 /\ e.sb = 1 /\ e.par = 3
Pos(k) == CHOOSE i \in DOMAIN H : H[i].e = k /\ \A j \in DOMAIN H : H[j].e = k => i <= j
\* opening and failing to
Opened(e, ok) == IF ok THEN e.rc = 0 /\ e.opened = 1 /\ ~Did("tclose") ELSE e.rc # 0 /\ e.opened = 0 /\ (Did("topen") /\ ~Bad("topen") => H[Len(H)].e = "tclose")
OpenPort == Did("topen") /\ H[1].e = "topen" /\ H[1].port = d.port /\ Len(Kinds({"topen"})) = 1
-----------------------------------------------------------------------------
(* DUMB *)
Opt(b) == HasBit(d.v, b)
UseL == Opt(1)
ClrDtr == Opt(2)
SetRts == Opt(4)
ManBrk == Opt(8)
InvL == Opt(16)
FastBrk == Opt(32)
BlkDup == Opt(64)
B01(x) == IF x THEN 1 ELSE 0
IdleLines == pt.dtr = B01(~ClrDtr) /\ pt.rts = B01(SetRts)
DumbFlags == (IF BlkDup THEN F_BLOCKDUPLEX ELSE 0) + (IF d.p = 2 THEN 2 + 8 + 1 + F_HALFDUPLEX ELSE IF d.p = 1 THEN 1 + F_HALFDUPLEX ELSE 0)
DumbOpen(e) ==
  LET ok == ~Bad("topen") /\ ~Bad("ctl") IN
  J(OpenPort /\ Opened(e, ok) /\ ~Did("tx") /\ ~Did("brk") /\ (ok => IdleLines /\ Did("fl") /\ e.left = 0 /\ e.flags = DumbFlags), Fresh)
\* the K line is pulled low by breaks, and by a byte written at 5 baud
TxBit(v, i) == IF i = 0 THEN 0 ELSE IF i = 9 THEN 1 ELSE (v \div 2^(i - 1)) % 2
KLow(x) == \E i \in DOMAIN H : IF H[i].e = "brk" THEN H[i].ok = 1 /\ H[i].t <= x /\ x < H[i].t + H[i].ms ELSE FALSE
RtsAt(x) == LET s == {i \in DOMAIN H : IF H[i].e = "ctl" THEN H[i].ok = 1 /\ H[i].t <= x ELSE FALSE} IN
            IF s = {} THEN B01(SetRts) ELSE H[CHOOSE i \in s : \A j \in s : j <= i].rts
LLow(x) == RtsAt(x) = B01(~InvL)
KLevel(x) == IF KLow(x) THEN 0 ELSE 1
LLevel(x) == IF LLow(x) THEN 0 ELSE 1
Shows(Level(_), t, v) == \A i \in 0..9 : \A x \in {3 * i + 5, 100, 195 - 3 * i} : Level(t + 200 * i + x) = TxBit(v, i)
FirstBrk == H[Pos("brk")]
FirstTx == H[Pos("tx")]
SyncSeen(b, from, e) == IF b # <<>> THEN e.rc = 0 ELSE e.rc = E_TIMEOUT /\ e.t - from >= 2280
DumbSlow(e) ==
  IF ManBrk THEN
       J(/\ ~Did("tx") /\ Did("brk") /\ ~Did("tset") /\ Shows(KLevel, FirstBrk.t, op.addr) /\ (UseL => Shows(LLevel, FirstBrk.t, op.addr))
         /\ IdleLines /\ Len(RdB) <= 1 /\ SyncSeen(RdB, FirstBrk.t, e) /\ (e.rc = 0 => e.left = 0), st)
  ELSE J(/\ TxB = <<op.addr>> /\ ~Did("brk") /\ (UseL => Shows(LLevel, FirstTx.t, op.addr)) /\ IdleLines
         /\ \E i \in DOMAIN H : H[i].e = "tset" /\ i < Pos("tx") /\ N81(H[i], 5)
         /\ (RdB = <<>> => e.rc = E_TIMEOUT) /\ (Len(RdB) = 1 => SyncSeen(<<>>, FirstTx.t, e)) /\ (Len(RdB) = 2 => e.rc = 0 /\ e.left = 0) /\ Len(RdB) <= 2
         /\ (RdB # <<>> => pt.ser = st.ser), st)
DumbFast(e) ==
  IF Bad("ctl") /\ ~Did("brk") THEN J(e.rc < 0 /\ ~Did("tx"), st)
  ELSE J(/\ Len(Kinds({"brk"})) = 1 /\ ~Did("tx") /\ FirstBrk.ms \in 24..26
         /\ IF Bad("brk") THEN e.rc < 0 ELSE e.rc = 0 /\ e.t - FirstBrk.t \in 48..52 /\ e.left = 0
         /\ (UseL /\ ~FastBrk /\ ~Bad("brk") => (\A x \in {0, 12, FirstBrk.ms - 1} : LLow(FirstBrk.t + x)) /\ \A x \in FirstBrk.ms + 3..45 : ~LLow(FirstBrk.t + x))
         /\ IdleLines, st)
DumbInit(e) == CASE op.type = 1 -> DumbFast(e) [] op.type = 2 -> DumbSlow(e) [] OTHER -> J(e.rc = E_INITNS /\ ~Did("brk") /\ ~Did("tx"), st)
DumbSend(e) == IF op.b = <<>> THEN J(e.rc = E_BADLEN /\ ~Did("tx"), st) ELSE J((IF Bad("tx") THEN e.rc < 0 ELSE TxB = op.b /\ e.rc = 0) /\ ~Did("rd"), st)
\* bytes are passed on as they are read; fewer than asked for only when the time is over
RawRecv(e) ==
  LET b == RdB err == IF Did("rd") THEN LastOf("rd").err ELSE 0 IN
  /\ ~Did("tx")
  /\ IF b # <<>> THEN e.rc = Len(b) /\ e.b = b /\ Len(b) <= op.n /\ (Len(b) = op.n \/ e.t - t0 >= op.w - 1)
     ELSE IF err = E_TIMEOUT THEN e.rc = E_TIMEOUT /\ e.t - t0 >= op.w - 1 ELSE e.rc < 0
DumbRecv(e) == IF op.n = 0 THEN J(e.rc = E_BADLEN /\ H = <<>>, st) ELSE J(RawRecv(e), st)
-----------------------------------------------------------------------------
(* BR-1 *)
Good(x) == [k |-> "data", b |-> x]
BrMsg(b) ==
  IF b = <<>> THEN Good(<<>>) ELSE
  LET n == b[1] % 16 IN
  IF Len(b) - 1 < n THEN [k |-> "short", b |-> <<>>] ELSE IF Len(b) - 1 > n THEN [k |-> "over", b |-> <<>>]
  ELSE IF b[1] >= 128 THEN [k |-> "err", b |-> <<>>] ELSE IF HasBit(b[1], 64) THEN [k |-> "busy", b |-> <<>>] ELSE Good(Tail(b))
IsTx(i, b) == i <= Len(D) /\ D[i].e = "tx" /\ D[i].b = b
Answered(i) == i <= Len(D) /\ D[i].e = "rd"
Waited(i, ms) == D[i].b = <<>> => D[i].err # E_TIMEOUT \/ D[i].t - D[i - 1].t >= ms - 1
J1850 == d.p \in {4, 8}
BrFlags == IF J1850 THEN F_L2FRAME ELSE IF d.p = 1 THEN 1 + F_P4WAIT ELSE IF d.p = 2 THEN 1 + 2 + 8 + F_P4WAIT ELSE F_AUTOSPEED
BrOpen(e) ==
  LET set == Did("tset") /\ N81(LastOf("tset"), 19200) ini == <<65, IF d.p = 8 THEN 1 ELSE 0>>
      fail == J(Opened(e, FALSE), Fresh) bad == J(FALSE, st) IN
  IF ~OpenPort THEN bad ELSE IF Bad("topen") THEN J(Opened(e, FALSE) /\ Len(H) = 1, Fresh)
  ELSE IF ~set THEN bad ELSE IF Bad("tset") THEN (IF Did("tx") THEN bad ELSE fail)
  ELSE IF ~IsTx(1, <<32>>) \/ ~Did("fl") THEN bad ELSE IF D[1].ok = 0 THEN (IF Len(D) = 1 THEN fail ELSE bad)
  ELSE IF ~Answered(2) THEN bad ELSE IF ~Waited(2, 100) \/ Len(D[2].b) > 1 THEN bad
  ELSE IF D[2].b # <<255>> THEN (IF Len(D) = 2 THEN fail ELSE bad)
  ELSE IF ~J1850 THEN J(Len(D) = 2 /\ Opened(e, TRUE) /\ e.flags = BrFlags, Fresh)
  ELSE IF ~IsTx(3, ini) THEN bad ELSE IF D[3].ok = 0 THEN (IF Len(D) = 3 THEN fail ELSE bad)
  ELSE IF ~Answered(4) \/ Len(D) # 4 THEN bad ELSE IF ~Waited(4, 100) THEN bad
  ELSE LET m == BrMsg(D[4].b) IN
       IF m.k = "data" /\ Len(m.b) \in 1..2 /\ m.b[1] = 0 THEN J(Opened(e, TRUE) /\ e.flags = BrFlags, Fresh) ELSE fail
\* a message that has begun is given up only after 100 ms without its rest
GaveUp(i) == D[i].t - D[i].t1 >= 99
BrInit(e) ==
  IF op.type # 2 THEN J(e.rc = E_INITNS /\ D = <<>>, st)
  ELSE IF ~Did("fl") THEN J(FALSE, st)
  ELSE IF Bad("tx") THEN J(e.rc < 0 /\ Len(D) = 1, st)
  ELSE IF ~IsTx(1, <<66, 2, op.addr>>) THEN J(FALSE, st)
  ELSE IF ~Answered(2) \/ Len(D) # 2 THEN J(FALSE, st)
  ELSE LET m == BrMsg(D[2].b) IN
       IF m.k = "data" /\ m.b # <<>> THEN J(e.rc = 0, [st EXCEPT !.at = "kb", !.kb = IF Len(m.b) = 1 THEN <<m.b[1], m.b[1]>> ELSE <<m.b[1], m.b[2]>>])
       ELSE J(e.rc < 0 /\ Waited(2, 6000) /\ m.k # "over" /\ (m.k = "short" => GaveUp(2)), st)
BrFrame(b, fr) == IF J1850 THEN <<Len(b) + 1>> \o b \o <<fr>> ELSE <<Len(b)>> \o b
BrSend(e) ==
  LET long == Len(op.b) + B01(J1850) > 15 IN
  IF op.b = <<>> \/ long THEN J(e.rc = E_BADLEN /\ ~Did("tx"), IF long /\ op.b # <<>> /\ Len(op.b) <= 16 THEN [st EXCEPT !.req = op.b, !.buf = <<>>, !.fr = 1] ELSE st)
  ELSE LET s == [st EXCEPT !.req = op.b, !.buf = <<>>, !.fr = 1] IN
       IF Bad("tx") THEN J(e.rc < 0, s) ELSE J(e.rc = 0 /\ TxB = BrFrame(op.b, 1) /\ ~Did("rd"), s)
\* the answers of one receive: conflicts are answered by repeating the request
RECURSIVE BrTake(_, _)
BrTake(i, n) ==      \* D from i on; n conflicts so far
  IF ~Answered(i) THEN [k |-> "wrong", b |-> <<>>, n |-> i]
  ELSE LET m == BrMsg(D[i].b) IN
       IF m.k = "busy" /\ n < 30 THEN
            IF Len(st.req) > 14 THEN [k |-> "fail", b |-> <<>>, n |-> i]
            ELSE IF ~IsTx(i + 1, BrFrame(st.req, st.fr)) THEN [k |-> IF i + 1 <= Len(D) /\ D[i + 1].ok = 0 /\ i + 1 = Len(D) THEN "fail" ELSE "wrong", b |-> <<>>, n |-> i + 1]
            ELSE IF D[i + 1].ok = 0 THEN [k |-> "fail", b |-> <<>>, n |-> i + 1] ELSE BrTake(i + 2, n + 1)
       ELSE [k |-> m.k, b |-> m.b, n |-> i]
BrRecv(e) ==
  IF op.n = 0 THEN J(e.rc = E_BADLEN /\ H = <<>>, st)
  ELSE IF st.at = "kb" THEN LET k == Lesser(op.n, Len(st.kb)) IN J(H = <<>> /\ e.rc = k /\ e.b = Take(st.kb, k), [st EXCEPT !.kb = Drop(@, k), !.at = IF k = Len(st.kb) THEN "op" ELSE "kb"])
  ELSE IF ~J1850 THEN J(RawRecv(e), st)
  ELSE IF st.buf # <<>> THEN LET k == Lesser(op.n, Len(st.buf)) IN J(H = <<>> /\ e.rc = k /\ e.b = Take(st.buf, k), [st EXCEPT !.buf = Drop(@, k)])
  ELSE LET again == st.fr > 1 IN
       IF again /\ Len(st.req) > 14 THEN J(e.rc = E_BADLEN /\ H = <<>>, st)
       ELSE IF again /\ ~IsTx(1, BrFrame(st.req, st.fr)) THEN J(D # <<>> /\ D[Len(D)].ok = 0 /\ e.rc < 0 /\ Len(D) = 1, st)
       ELSE IF again /\ D[1].ok = 0 THEN J(e.rc < 0 /\ Len(D) = 1, st)
       ELSE LET r == BrTake(IF again THEN 2 ELSE 1, 0) s == [st EXCEPT !.fr = @ + 1] IN
            IF r.k \in {"wrong", "over"} \/ r.n # Len(D) THEN J(FALSE, st)
            ELSE IF r.k = "fail" THEN J(e.rc < 0, st)
            ELSE IF r.k = "data" /\ r.b # <<>> THEN LET k == Lesser(op.n, Len(r.b)) IN J(e.rc = k /\ e.b = Take(r.b, k), [s EXCEPT !.buf = Drop(r.b, k)])
            ELSE J(e.rc < 0 /\ (D[r.n].b = <<>> /\ D[r.n].err = E_TIMEOUT => e.rc = E_TIMEOUT /\ e.t - t0 >= MaxI(op.w, 500) - 1)
                   /\ (r.k = "busy" => e.rc = E_BUS) /\ (r.k = "short" => GaveUp(r.n)), s)
-----------------------------------------------------------------------------
(* ME T16 *)
RECURSIVE Sum(_)
Sum(b) == IF b = <<>> THEN 0 ELSE (Head(b) + Sum(Tail(b))) % 256
MeReq(c, b) == LET x == <<d.v, c>> \o b \o [i \in 1..(12 - Len(b)) |-> 0] IN x \o <<Sum(SubSeq(x, 2, 13))>>
MeOk(f) == Sum(SubSeq(f, 2, 13)) = f[14]
Baud(v) == IF v = 0 \/ v = 64 THEN 0 ELSE
           CASE v \in 20..21 -> 19200 [] v \in 37..40 -> 10400 [] v \in 41..44 -> 9600 [] v \in 81..86 -> 4800 [] v \in 106..114 -> 3600
             [] v \in 161..173 -> 2400 [] v \in 211..249 -> 1800 [] OTHER -> 400000 \div v
MeFlags == F_AUTOSPEED + (IF J1850 THEN F_L2CKSUM + F_L2FRAME ELSE IF d.p = 1 THEN 1 ELSE IF d.p = 2 THEN 1 + 2 + 8 + F_L2FRAME + F_SLOWINIT + F_L2CKSUM ELSE 0)
MeOpen(e) ==
  LET ok == ~Bad("topen") /\ ~Bad("tset") /\ ~Bad("ctl") IN
  J(/\ OpenPort /\ Opened(e, ok) /\ ~Did("tx") /\ (~Bad("topen") => Did("tset") /\ N81(LastOf("tset"), 19200))
    /\ (ok => Did("ctl") /\ pt.dtr = 1 /\ pt.rts = 0 /\ Did("fl") /\ e.left = 0 /\ e.flags = MeFlags), Fresh)
MeInit(e) ==
  IF op.type = 1 THEN J(e.rc = 0 /\ ~Did("tx"), [st EXCEPT !.wake = TRUE, !.at = "first"])
  ELSE IF ~Did("fl") THEN J(FALSE, st)
  ELSE IF d.p = 1 THEN
       IF ~IsTx(1, MeReq(32, <<op.addr>>)) THEN J(FALSE, st)
       ELSE IF D[1].ok = 0 THEN J(e.rc < 0 /\ Len(D) = 1, st)
       ELSE IF ~Answered(2) \/ Len(D) # 2 \/ Len(RdB) > 1 THEN J(FALSE, st)
       ELSE IF RdB = <<>> THEN J(e.rc < 0 /\ Waited(2, 2350), st)
       ELSE IF RdB = <<64>> THEN J(e.rc < 0 /\ ~Did("tset"), st)
       ELSE J(e.rc = 0 /\ (IF Baud(RdB[1]) = 0 THEN ~Did("tset") ELSE Did("tset") /\ N81(LastOf("tset"), Baud(RdB[1]))), [st EXCEPT !.at = "raw"])
  ELSE IF ~IsTx(1, MeReq(133, <<1, 62>>)) THEN J(FALSE, st)
       ELSE IF D[1].ok = 0 THEN J(e.rc < 0 /\ Len(D) = 1, st)
       ELSE IF ~Answered(2) THEN J(FALSE, st)
       ELSE IF Len(D[2].b) # 14 \/ D[2].b[2] = 128 THEN J(e.rc < 0 /\ Len(D) = 2 /\ Len(D[2].b) <= 14, st)
       ELSE IF ~IsTx(3, MeReq(134, <<>>)) THEN J(FALSE, st)
       ELSE IF D[3].ok = 0 THEN J(e.rc < 0 /\ Len(D) = 3, st)
       ELSE IF ~Answered(4) \/ Len(D) # 4 THEN J(FALSE, st)
       ELSE IF Len(D[4].b) # 14 \/ D[4].b[2] = 128 THEN J(e.rc < 0 /\ Len(D[4].b) <= 14, st)
       ELSE J(e.rc = 0, [st EXCEPT !.at = "kb", !.kb = <<D[4].b[3], D[4].b[4]>>])
MeCmd == CASE d.p = 1 -> 16 [] d.p = 2 -> (IF st.wake THEN 135 ELSE 136) [] d.p = 4 -> 2 [] OTHER -> 128
MeSend(e) ==
  IF op.b = <<>> \/ Len(op.b) > (IF st.at = "raw" THEN 255 ELSE 11) THEN J(e.rc = E_BADLEN /\ ~Did("tx"), st)
  ELSE LET b == IF st.at = "raw" THEN op.b ELSE MeReq(MeCmd, <<Len(op.b)>> \o op.b) s == [st EXCEPT !.wake = IF st.at # "raw" /\ d.p = 2 THEN FALSE ELSE @] IN
       IF Bad("tx") THEN J(e.rc < 0, s) ELSE J(e.rc = 0 /\ TxB = b /\ ~Did("rd"), s)
\* J1850 CRC
RECURSIVE Crc8(_, _)
Crc8(c, n) == IF n = 0 THEN c ELSE Crc8(IF c >= 128 THEN Bxor((c * 2) % 256, 29) ELSE c * 2, n - 1)
RECURSIVE CrcAll(_, _)
CrcAll(c, b) == IF b = <<>> THEN 255 - c ELSE CrcAll(Crc8(Bxor(c, Head(b)), 8), Tail(b))
\* the padded bus message in an adapter frame: the longest prefix that carries its own check, followed by zeros only
MePay(f) ==
  LET p == SubSeq(f, 3, 13)
      fits(n) == (\A i \in (n + 1)..11 : p[i] = 0) /\ p[n] = (IF f[2] \in {130, 132} THEN CrcAll(255, SubSeq(p, 1, n - 1)) ELSE Sum(SubSeq(p, 1, n - 1)))
      s == IF f[2] \in {1, 129, 130, 132} THEN {n \in 2..11 : fits(n)} ELSE {} IN
  IF s = {} THEN p ELSE SubSeq(p, 1, CHOOSE n \in s : \A m \in s : m <= n)
MeRecv(e) ==
  LET s0 == [st EXCEPT !.at = IF @ = "first" THEN "op" ELSE @]
      wait == IF st.at = "first" THEN Lesser(op.w, 200) ELSE op.w IN   \* the first answer after a fast initialisation gets 200 ms
  IF op.n = 0 THEN J(e.rc = E_BADLEN /\ H = <<>>, st)
  ELSE IF st.at = "kb" THEN LET k == Lesser(op.n, Len(st.kb)) IN J(H = <<>> /\ e.rc = k /\ e.b = Take(st.kb, k), [st EXCEPT !.kb = Drop(@, k), !.at = IF k = Len(st.kb) THEN "op" ELSE "kb"])
  ELSE IF st.at = "raw" THEN J(RawRecv(e), st)
  ELSE IF st.buf # <<>> THEN LET k == Lesser(op.n, Len(st.buf)) IN J(H = <<>> /\ e.rc = k /\ e.b = Take(st.buf, k), [s0 EXCEPT !.buf = Drop(@, k)])
  ELSE LET f == st.part \o RdB err == IF Did("rd") THEN LastOf("rd").err ELSE 0 IN
       IF Did("tx") \/ Len(f) > 14 THEN J(FALSE, st)
       ELSE IF RdB = <<>> /\ err # E_TIMEOUT THEN J(e.rc < 0, s0)
       ELSE IF Len(f) < 14 THEN J(e.rc = E_TIMEOUT /\ e.t - t0 >= wait - 1, [s0 EXCEPT !.part = f])
       ELSE LET s == [s0 EXCEPT !.part = <<>>] IN
            IF ~MeOk(f) THEN J(e.rc < 0, s)
            ELSE IF f[2] = 128 THEN J(IF f[4] \in {5, 7, 12} THEN e.rc = E_TIMEOUT ELSE e.rc = E_GENERAL, s)
            ELSE LET p == MePay(f) k == Lesser(op.n, Len(p)) IN J(e.rc = k /\ e.b = Take(p, k), [s EXCEPT !.buf = Drop(p, k)])
-----------------------------------------------------------------------------
ByDev(x, y, z) == IF d.n = "DUMB" THEN x ELSE IF d.n = "BR1" THEN y ELSE z
Judge(e) ==
  CASE op.op = "eopen" -> ByDev(DumbOpen(e), BrOpen(e), MeOpen(e))
    [] op.op = "einit" -> ByDev(DumbInit(e), BrInit(e), MeInit(e))
    [] op.op = "esend" -> ByDev(DumbSend(e), BrSend(e), MeSend(e))
    [] op.op = "erecv" -> ByDev(DumbRecv(e), BrRecv(e), MeRecv(e))
    [] op.op = "eclose" -> J(e.opened = 0 /\ Len(H) = 1 /\ Did("tclose"), st)
    [] op.op = "espeed" -> IF d.n # "DUMB" THEN J(e.rc = E_IOCTL /\ H = <<>>, st)
                           ELSE LET x == <<op.v, op.db, op.sb, op.par>> IN
                                J(Len(H) = 1 /\ Did("tset") /\ <<H[1].v, H[1].db, H[1].sb, H[1].par>> = x /\ (IF H[1].ok = 1 THEN e.rc = 0 ELSE e.rc < 0), [st EXCEPT !.ser = x])
    [] op.op = "eio" -> IF op.cmd = 8706 THEN J(e.rc = 0 /\ (d.n = "DUMB" => Did("fl")) /\ ~Did("tx"), st) ELSE J(e.rc = E_IOCTL /\ H = <<>>, st)
    [] OTHER -> J(TRUE, st)
Call(c, t) ==
  /\ op = <<>> /\ op' = c /\ t0' = t /\ H' = <<>> /\ UNCHANGED <<pt, st>>
  /\ d' = CASE c.op = "enew" -> [d EXCEPT !.n = c.n_]
            [] c.op = "ecfg" -> [d EXCEPT !.port = c.port, !.v = c.v]
            [] c.op = "eopen" /\ ~d.open -> [d EXCEPT !.p = c.p]
            [] OTHER -> d
Active == op # <<>> /\ op.op \in {"eopen", "einit", "esend", "erecv", "eclose", "espeed", "eio"} /\ ((op.op = "eopen") # d.open)
Port(e) ==
  /\ Active /\ H' = Append(H, e) /\ UNCHANGED <<op, t0, d, st>>
  /\ pt' = CASE e.e = "ctl" /\ e.ok = 1 -> [pt EXCEPT !.dtr = e.dtr, !.rts = e.rts]
             [] e.e = "tset" /\ e.ok = 1 -> [pt EXCEPT !.ser = <<e.v, e.db, e.sb, e.par>>]
             [] OTHER -> pt
Ret(e) ==
  /\ op # <<>> /\ op' = <<>> /\ H' = <<>> /\ UNCHANGED <<t0, pt>>
  /\ IF Active THEN LET j == Judge(e) IN
          /\ j.ok = TRUE /\ st' = j.st
          /\ d' = IF op.op = "eopen" THEN [d EXCEPT !.open = e.rc = 0] ELSE IF op.op = "eclose" THEN [d EXCEPT !.open = FALSE] ELSE d
     ELSE d' = d /\ st' = st /\ (IF e.op = "live" THEN e.v = 0 ELSE TRUE)
=============================================================================
