-------------------------------- MODULE Elm --------------------------------
(* The ELM32x adapter driver: every operation is a dialogue of commands, each *)
(* written as one line to the serial port and answered by a text that has to  *)
(* end with the prompt.                                                       *)
EXTENDS VBytes
VARIABLES op, t0,   \* operation in progress; the time it began or last wrote to the port
          a,        \* what the driver knows of the adapter
          k,        \* position in the dialogue
          clean     \* old input has been discarded since the last answer
vars == <<op, t0, a, k, clean>>

Ascii == " !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Code == [i \in 1..Len(Ascii) |-> IF i = 1 THEN 32 ELSE IF i = 2 THEN 33 ELSE IF i <= 59 THEN i + 32 ELSE i + 33]
Ord == [c \in {SubSeq(Ascii, i, i) : i \in 1..Len(Ascii)} |-> Code[CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = c]]
Asc(s) == [i \in 1..Len(s) |-> Ord[SubSeq(s, i, i)]]
HexD == <<48,49,50,51,52,53,54,55,56,57,65,66,67,68,69,70>>
Hx(v) == <<HexD[(v \div 16) + 1], HexD[(v % 16) + 1]>>
RECURSIVE HexAll(_)
HexAll(b) == IF b = <<>> THEN <<>> ELSE Hx(Head(b)) \o HexAll(Tail(b))
Sp == <<32>>
IsHex(c) == c \in 48..57 \cup 65..70 \cup 97..102
HexVal(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
Within(t, s) == \E i \in 1..(Len(t) - Len(s) + 1) : IF t[i] = s[1] THEN SubSeq(t, i, i + Len(s) - 1) = s ELSE FALSE
\* text up to the first zero byte
CText(t) == LET z == {i \in DOMAIN t : t[i] = 0} IN IF z = {} THEN t ELSE SubSeq(t, 1, (CHOOSE i \in z : \A j \in z : i <= j) - 1)
Err323 == <<Asc("BUS BUSY"), Asc("FB ERROR"), Asc("DATA ERROR"), Asc("<DATA ERROR"), Asc("NO DATA"), Asc("?")>>
Err327 == Err323 \o <<Asc("ACT ALERT"), Asc("BUFFER FULL"), Asc("BUS ERROR"), Asc("CAN ERROR"), Asc("LP ALERT"), Asc("LV RESET"),
                      Asc("<RX ERROR"), Asc("STOPPED"), Asc("UNABLE TO CONNECT"), Asc("ERR")>>
NoDataIx == 5
OK == Asc("OK")
KW == Asc("ATKW")
ATZ == Asc("ATZ")
V323 == Asc("ELM323")
V327 == Asc("ELM327")
Official(kind) == IF kind = "323" THEN {Asc("2.0")} ELSE {Asc("1.0a"), Asc("1.0"), Asc("1.1"), Asc("1.2a"), Asc("1.2"), Asc("1.3a"), Asc("1.3"), Asc("1.4b"), Asc("2.0")}
Errs(kind) == IF kind = "323" THEN Err323 ELSE Err327
\* the error reported in a text: 0 none, else its number
ErrIn(kind, t) == LET h == {i \in DOMAIN Errs(kind) : Within(CText(t), Errs(kind)[i])} IN IF h = {} THEN 0 ELSE CHOOSE i \in h : \A j \in h : i <= j
Prompt(t) == t # <<>> /\ t[Len(t)] = 62
Good(kind, cmd, t) == Prompt(t) /\ ErrIn(kind, t) = 0 /\ (Within(CText(t), OK) \/ Within(cmd, KW) \/ Within(cmd, ATZ))
-----------------------------------------------------------------------------
\* dialogue positions
St(at, sub, cmd) == [at |-> at, sub |-> sub, cmd |-> cmd, rest |-> <<>>, rc |-> 0, kb |-> <<>>, data |-> <<>>]
Line(at, s) == St(at, "tx", s \o <<13>>)
Cmd(at, s) == Line(at, Asc(s))
Done(rc) == [St("ret", "ret", <<>>) EXCEPT !.rc = rc]
Fail == Done(1)             \* any error
Close(rc) == [St("close", "close", <<>>) EXCEPT !.rc = rc]
Idle == St("idle", "idle", <<>>)
Speeds(c) == <<c>> \o SelectSeq(<<38400, 9600, 115200>>, LAMBDA v : v # c)
Setup(s) == [St("setup", "setup", <<>>) EXCEPT !.rest = s]
BADIF == -7
E_IOCTL == -6
Abort(rc) == [Cmd("atpc", "ATPC") EXCEPT !.rc = rc]
NoAdapter == [open |-> FALSE, kind |-> "", clone |-> FALSE, init |-> FALSE, hdr |-> <<0, 0, 0>>, iia |-> 51, wm |-> <<>>, proto |-> 0, port |-> "", speed |-> 38400]
Init0 == op = <<>> /\ t0 = 0 /\ a = NoAdapter /\ k = Idle /\ clean = FALSE

Reset(x, p) == [x EXCEPT !.open = FALSE, !.kind = "", !.clone = FALSE, !.init = FALSE, !.hdr = <<0, 0, 0>>, !.iia = 51, !.wm = <<>>, !.proto = p]
\* ---- sending data
Data(x, b) == Line("data", HexAll(IF x.proto = 1 THEN Drop(b, 3) ELSE b))
SendBegin(x, b) ==
  IF x.proto = 1 /\ Take(b, 3) # x.hdr
  THEN [Line("s_sh", Asc("ATSH") \o Sp \o Hx(b[1]) \o Sp \o Hx(b[2]) \o Sp \o Hx(b[3])) EXCEPT !.data = b]
  ELSE [Data(x, b) EXCEPT !.data = b]
BogusData(x) == IF x.proto = 1 THEN <<104, 106, 241, 1, 0>> ELSE <<1, 0>>
Bogus(x) == SendBegin(x, BogusData(x))
\* ---- bus initialisation
FastHdr == Line("f_sh", Asc("ATSH") \o Sp \o Hx(IF op.phys # 0 THEN 129 ELSE 193) \o Sp \o Hx(op.addr) \o Sp \o Hx(op.src))
Wm(x, at) == Line(at, Asc("ATWM") \o Sp \o Hx(x.wm[1]) \o Sp \o Hx(x.wm[2]) \o Sp \o Hx(x.wm[3]) \o Sp \o Hx(x.wm[4]))
FastWm(x) == IF x.wm # <<>> THEN Wm(x, "f_wm") ELSE FastHdr
SlowGo(x) == IF x.clone THEN Bogus(x) ELSE Cmd("si", "ATSI")
SlowKw(x) == IF x.kind = "327" THEN Cmd("kw0", "ATKW0") ELSE SlowGo(x)
SlowAddr(x) == IF x.kind = "323" /\ op.addr # 51 THEN Fail ELSE IF op.addr # x.iia THEN Line("iia", Asc("ATIIA") \o Sp \o Hx(op.addr)) ELSE SlowKw(x)
SlowWm(x) == IF x.wm # <<>> THEN Wm(x, "s_wm") ELSE SlowAddr(x)
InitBegin(x) ==
  CASE op.type = 1 -> IF x.kind = "327" THEN Cmd("f_tp", "ATTP5") ELSE FastWm(x)
    [] op.type = 2 -> IF x.kind = "323" THEN SlowWm(x)
                      ELSE IF x.proto = 1 THEN Cmd("s_tp", "ATTP3") ELSE IF x.proto = 2 THEN Cmd("s_tp", "ATTP4") ELSE Done(E_INITNS)
    [] OTHER -> Done(E_INITNS)
KeyBytes(t) ==
  IF Len(t) >= 9 /\ SubSeq(t, 1, 2) = Asc("1:") /\ IsHex(t[3]) /\ IsHex(t[4]) /\ SubSeq(t, 5, 7) = Asc(" 2:") /\ IsHex(t[8]) /\ IsHex(t[9])
  THEN <<16 * HexVal(t[3]) + HexVal(t[4]), 16 * HexVal(t[8]) + HexVal(t[9])>> ELSE <<238, 238>>
\* ---- what follows a completed exchange; result <<adapter, position>>
Identify(x, t) ==
  LET kind == IF Within(CText(t), V323) THEN "323" ELSE IF Within(CText(t), V327) THEN "327" ELSE "" IN
  [x EXCEPT !.kind = kind, !.clone = ~\E v \in Official(kind) : Within(CText(t), v), !.open = kind # ""]
Supported(x) == x.kind = "327" \/ x.proto \in {1, 2}
OpenEnd(x) ==
  IF ~Supported(x) THEN Abort(E_PROTONS)
  ELSE IF x.kind = "327" /\ x.proto \in {1, 4, 8} THEN Cmd("tp", CASE x.proto = 8 -> "ATTP1" [] x.proto = 4 -> "ATTP2" [] OTHER -> "ATTP3")
  ELSE Done(0)
NextSpeed == IF Len(k.rest) = 1 THEN Close(BADIF) ELSE Setup(Tail(k.rest))
After(ok, t) ==
  LET next(p) == <<a, p>>
      must(p) == <<a, IF ok THEN p ELSE Fail>>
      chk(p) == <<a, IF ok THEN p ELSE Abort(BADIF)>> IN
  CASE k.at = "ati" -> next(IF Prompt(t) THEN Cmd("atz", "ATZ") ELSE NextSpeed)
    [] k.at = "atz" -> IF ~ok THEN next(Close(BADIF)) ELSE LET x == Identify(a, t) IN <<x, IF x.open THEN Cmd("e0", "ATE0") ELSE Close(BADIF)>>
    [] k.at = "e0" -> chk(Cmd("l0", "ATL0"))
    [] k.at = "l0" -> chk(Cmd("h1", "ATH1"))
    [] k.at = "h1" -> chk(IF a.kind = "327" THEN Cmd("m0", "ATM0") ELSE OpenEnd(a))
    [] k.at = "m0" -> chk(OpenEnd(a))
    [] k.at = "tp" -> chk(Done(0))
    [] k.at = "atpc" -> next(Close(k.rc))
    [] k.at = "s_sh" -> IF ~ok THEN next(Fail)
                        ELSE IF HasBit(k.data[1], 128) /\ ~(HasBit(a.hdr[1], 128) /\ a.hdr[3] = k.data[3]) THEN next([Line("s_sr", Asc("ATSR") \o Sp \o Hx(k.data[3])) EXCEPT !.data = k.data])
                        ELSE <<[a EXCEPT !.hdr = Take(k.data, 3)], Data(a, k.data)>>
    [] k.at = "s_sr" -> IF ~ok THEN next(Fail) ELSE <<[a EXCEPT !.hdr = Take(k.data, 3)], Data(a, k.data)>>
    [] k.at = "data" -> IF ok THEN next(IF op.op = "esend" THEN Done(0) ELSE St("bogus", "rd", <<>>)) ELSE next(Fail)
    [] k.at = "bogus" -> IF Prompt(t) /\ ErrIn(a.kind, t) = 0 THEN <<[a EXCEPT !.init = TRUE], [Done(0) EXCEPT !.kb = <<238, 238>>]>> ELSE next(Fail)
    [] k.at = "f_tp" -> must(FastWm(a))
    [] k.at = "f_wm" -> must(FastHdr)
    [] k.at = "f_sh" -> must(IF a.clone THEN Bogus(a) ELSE Cmd("fi", "ATFI"))
    [] k.at = "fi" -> IF ok THEN <<[a EXCEPT !.init = TRUE], [Done(0) EXCEPT !.kb = <<238, 238>>]>> ELSE next(Bogus(a))
    [] k.at = "s_tp" -> must(SlowWm(a))
    [] k.at = "s_wm" -> must(SlowAddr(a))
    [] k.at = "iia" -> IF ok THEN LET x == [a EXCEPT !.iia = op.addr] IN <<x, SlowKw(x)>> ELSE next(Fail)
    [] k.at = "kw0" -> next(SlowGo(a))
    [] k.at = "si" -> IF ok THEN <<[a EXCEPT !.init = TRUE], Cmd("kw", "ATKW")>> ELSE next(Bogus(a))
    [] k.at = "kw" -> next([Cmd("al", "ATAL") EXCEPT !.kb = IF ok THEN KeyBytes(t) ELSE <<238, 238>>])
    [] k.at = "al" -> next([Done(0) EXCEPT !.kb = k.kb])
-----------------------------------------------------------------------------
\* ---- receiving: the text is pairs of hexadecimal digits up to the end of a line
IsSep(c) == c \in {13, 10, 62}
\* result of scanning: [ok, data, ended]
RECURSIVE Scan(_, _, _, _)
Scan(t, i, d, n) ==
  IF Len(d) = n THEN [ok |-> TRUE, data |-> d, at |-> i, ended |-> TRUE]
  ELSE IF i > Len(t) THEN [ok |-> TRUE, data |-> d, at |-> i, ended |-> FALSE]
  ELSE IF t[i] = 32 THEN Scan(t, i + 1, d, n)
  ELSE IF IsSep(t[i]) THEN (IF d # <<>> THEN [ok |-> TRUE, data |-> d, at |-> i + 1, ended |-> TRUE] ELSE Scan(t, i + 1, d, n))
  ELSE IF i = Len(t) THEN [ok |-> TRUE, data |-> d, at |-> i, ended |-> FALSE]
  ELSE IF IsHex(t[i]) /\ IsHex(t[i + 1]) THEN Scan(t, i + 2, Append(d, 16 * HexVal(t[i]) + HexVal(t[i + 1])), n)
  ELSE [ok |-> FALSE, data |-> <<>>, at |-> i, ended |-> TRUE]
RecvRet(r) ==
  LET t == k.cmd s == Scan(t, 1, <<>>, op.n) e == ErrIn(a.kind, t) late == r.t - t0 >= op.w + 100 IN
  IF k.rc \notin {0, E_TIMEOUT} THEN r.rc = E_GENERAL                       \* the port failed
  ELSE IF e # 0 THEN r.rc = (IF e = NoDataIx THEN E_TIMEOUT ELSE E_GENERAL)
  ELSE IF ~s.ok THEN r.rc = E_TIMEOUT
  ELSE IF s.ended THEN s.at = Len(t) + 1 /\ r.rc = Len(s.data) /\ r.b = s.data
  ELSE IF Len(t) > 3000 THEN r.rc < 0
  ELSE late /\ (IF s.data = <<>> THEN r.rc = E_TIMEOUT ELSE r.rc = Len(s.data) /\ r.b = s.data)
-----------------------------------------------------------------------------
Base == {F_DATAONLY, F_AUTOSPEED, F_P4WAIT, F_L2FRAME, F_L2CKSUM, F_FULLINIT, F_KEEPALIVE}
RECURSIVE FSum(_)
FSum(s) == IF s = {} THEN 0 ELSE LET x == CHOOSE x \in s : TRUE IN x + FSum(s \ {x})
Flags(p) == FSum(IF p = 1 THEN (Base \ {F_DATAONLY}) \cup {1} ELSE IF p = 2 THEN Base \cup {1, 2, 8} ELSE Base)
Skip == Done(2)             \* nothing is done
Call(c, t) ==
  /\ op = <<>> /\ op' = c /\ t0' = t /\ clean' = FALSE
  /\ CASE c.op = "ecfg" -> a' = [a EXCEPT !.port = c.port, !.speed = c.v] /\ k' = Done(0)
       [] c.op = "eopen" -> IF a.open THEN a' = a /\ k' = Skip ELSE a' = Reset(a, c.p) /\ k' = St("port", "port", <<>>)
       [] ~a.open \/ c.op = "other" -> a' = a /\ k' = Skip
       [] c.op = "eclose" -> a' = a /\ k' = Abort(0)
       [] c.op = "esend" -> /\ a' = a
                            /\ k' = IF c.b = <<>> \/ (a.proto = 1 /\ Len(c.b) <= 3) \/ 2 * Len(c.b) > 999 THEN Done(E_BADLEN) ELSE SendBegin(a, c.b)
       [] c.op = "erecv" -> a' = a /\ k' = IF c.n = 0 \/ c.n > 1024 THEN Done(E_BADLEN) ELSE St("recv", "recv", <<>>)
       [] c.op = "ewm" -> LET ok == ~a.init /\ a.kind # "323" /\ Len(c.b) = 4 IN
                          /\ a' = IF ok THEN [a EXCEPT !.wm = c.b] ELSE a
                          /\ k' = IF ok THEN Done(0) ELSE IF a.init THEN Done(E_GENERAL) ELSE IF a.kind = "323" THEN Done(E_IOCTL) ELSE Done(E_GENERAL)
       [] c.op = "eio" -> a' = a /\ k' = IF c.cmd = 8706 THEN Done(0) ELSE Done(E_IOCTL)
       [] c.op = "einit" -> a' = [a EXCEPT !.init = FALSE] /\ k' = St("init", "init", <<>>)
       [] OTHER -> a' = a /\ k' = Skip
\* initialisation starts as soon as its operation is known
Begin == k.sub = "init" /\ k' = InitBegin(a) /\ UNCHANGED <<op, t0, a, clean>>
Topen(e) ==
  /\ k.sub = "port" /\ e.port = a.port /\ UNCHANGED <<op, t0, a, clean>>
  /\ k' = IF e.ok = 1 THEN Setup(Speeds(a.speed)) ELSE Done(E_GENERAL)
Tset(e) ==
  /\ k.sub = "setup" /\ e.v = Head(k.rest) /\ e.db = 8 /\ e.sb = 1 /\ e.par = 3 /\ UNCHANGED <<op, t0, a, clean>>
  /\ k' = IF e.ok = 1 THEN [Cmd("ati", "ATI") EXCEPT !.rest = k.rest] ELSE Close(1)
Flush == op # <<>> /\ clean' = TRUE /\ UNCHANGED <<op, t0, a, k>>
\* how long an answer is waited for, at least
MinWait == CASE k.at = "atz" -> 1000 [] k.at = "si" -> 2500 [] k.at = "fi" -> 500 [] k.at = "ati" -> 300
             [] k.at = "bogus" -> (IF op.type = 2 THEN 4000 ELSE 1000) [] OTHER -> 300
Tx(e) ==
  /\ k.sub = "tx" /\ e.b = k.cmd /\ (k.at = "data" \/ clean) /\ UNCHANGED op /\ clean' = FALSE /\ t0' = e.t
  /\ IF e.ok = 1 /\ k.at # "data" THEN k' = [k EXCEPT !.sub = "rd"] /\ a' = a
     ELSE LET r == After(e.ok = 1, <<>>) IN a' = r[1] /\ k' = r[2]
Rd(e) ==
  /\ UNCHANGED <<op, t0>> /\ clean' = FALSE
  /\ CASE k.sub = "rd" -> (Prompt(e.b) \/ Len(e.b) >= 900 \/ e.err \notin {0, E_TIMEOUT} \/ e.t - t0 >= MinWait) /\ LET r == After(Good(a.kind, k.cmd, e.b) /\ e.err = 0, e.b) IN a' = r[1] /\ k' = r[2]
       [] k.sub = "recv" -> a' = a /\ k' = [k EXCEPT !.sub = "ret", !.cmd = e.b, !.rc = e.err]
       [] OTHER -> FALSE
Tclose == k.sub = "close" /\ k' = Done(k.rc) /\ a' = [a EXCEPT !.open = FALSE] /\ UNCHANGED <<op, t0, clean>>
Ret(r) ==
  /\ op # <<>> /\ k.sub = "ret" /\ op' = <<>> /\ k' = Idle /\ UNCHANGED <<t0, a, clean>>
  /\ CASE k.at = "recv" -> RecvRet(r) = TRUE
       [] k.rc = 2 -> IF r.op = "live" THEN r.v = 0 ELSE IF op.op = "other" THEN TRUE ELSE r.rc = 1
       [] op.op = "einit" -> (IF k.rc = 1 THEN r.rc < 0 ELSE r.rc = k.rc) /\ (k.rc = 0 => <<r.kb1, r.kb2>> = k.kb)
       [] op.op = "eopen" -> (IF k.rc = 1 THEN r.rc < 0 ELSE r.rc = k.rc) /\ r.opened = (IF k.rc = 0 THEN 1 ELSE 0) /\ (k.rc = 0 => r.flags = Flags(a.proto))
       [] op.op = "eclose" -> r.opened = 0
       [] OTHER -> IF k.rc = 1 THEN r.rc < 0 ELSE r.rc = k.rc
=============================================================================
