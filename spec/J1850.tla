-------------------------------- MODULE J1850 --------------------------------
(* Tester side of an SAE J1850 connection (PWM and VPW): header and CRC on    *)
(* transmission, collection of every frame in the response window.            *)
EXTENDS VBytes
VARIABLES fl, proto, conn, op, ph, turn, t0
vars == <<fl, proto, conn, op, ph, turn, t0>>
Init0(f, p) == fl = f /\ proto = p /\ conn = <<>> /\ op = <<>> /\ ph = "idle" /\ turn = <<>> /\ t0 = 0
Framing == HasBit(fl, F_L2FRAME)
NoHdrs == HasBit(fl, F_NOHDRS)
Strip == HasBit(fl, F_STRIPCK)
-----------------------------------------------------------------------------
(* CRC-8, polynomial 1D, initial value FF, complemented *)
Step(c) == IF c >= 128 THEN ((c * 2) % 256) ^^ 29 ELSE c * 2
Crc8(c) == Step(Step(Step(Step(Step(Step(Step(Step(c))))))))
CrcTab == [c \in 0..255 |-> Crc8(c)]
RECURSIVE CrcTo(_, _)
CrcTo(b, n) == IF n = 0 THEN 255 ELSE CrcTab[CrcTo(b, n - 1) ^^ b[n]]
Crc(b) == Not8(CrcTo(b, Len(b)))
Frame(pay) ==
  LET body == <<IF proto = 8 THEN 97 ELSE 104, conn.tgt, conn.src>> \o pay IN
  IF HasBit(fl, F_DATAONLY) THEN pay ELSE IF HasBit(fl, F_L2CKSUM) THEN body ELSE Append(body, Crc(body))
-----------------------------------------------------------------------------
HL == IF NoHdrs THEN 0 ELSE 3
LongEnough(b) == Len(b) >= HL + 1 + Bit(~Strip, 1)
Msg(b) == LET n == Len(b) - Bit(~Strip, 1)  bad == ~Strip /\ Crc(Take(b, n)) # b[Len(b)] IN
  [b |-> Drop(Take(b, n), HL), dest |-> IF NoHdrs THEN 0 ELSE b[2], src |-> IF NoHdrs THEN 0 ELSE b[3], fmt |-> 10 + Bit(bad, 16)]
HasErr == \E i \in DOMAIN turn : turn[i].err # 0
Frames == SelectSeq([i \in DOMAIN turn |-> turn[i].b], LongEnough)
SameMsgs(rs) == LET fs == Frames IN Len(fs) = Len(rs) /\ \A i \in DOMAIN fs :
   LET m == Msg(fs[i]) IN m.b = rs[i].b /\ m.src = rs[i].src /\ m.dest = rs[i].dest /\ m.fmt = (rs[i].fmt & 26)
Base == IF op.op = "recv" THEN op.w ELSE 250
Waited(t) == HasErr \/ (t - t0 >= Base - 1 /\ t - t0 <= Base + 400)
-----------------------------------------------------------------------------
Call(c, t) ==
  /\ ph = "idle" /\ op' = c /\ turn' = <<>> /\ t0' = t /\ UNCHANGED <<fl, proto>>
  /\ CASE c.op = "start" -> ph' = "s" /\ conn' = [src |-> c.src, tgt |-> c.tgt]
       [] c.op \in {"send", "req"} /\ conn # <<>> -> ph' = "tx" /\ UNCHANGED conn
       [] c.op = "recv" /\ conn # <<>> -> ph' = "rx" /\ UNCHANGED conn
       [] OTHER -> ph' = "other" /\ UNCHANGED conn
Tx(b, rc, tend) ==
  /\ ph = "tx" /\ (IF rc = 0 THEN b = Frame(op.b) ELSE IsPrefix(b, Frame(op.b)))
  /\ ph' = (IF rc # 0 THEN "txfail" ELSE IF op.op = "send" THEN "sent" ELSE "rx")
  /\ turn' = <<>> /\ t0' = tend /\ UNCHANGED <<fl, proto, conn, op>>
In(b, err, t) ==
  /\ ph = "rx" /\ turn' = Append(turn, [t |-> t, b |-> b, err |-> err]) /\ UNCHANGED <<fl, proto, conn, op, ph, t0>>
Fin(c) == conn' = c /\ op' = <<>> /\ ph' = "idle" /\ turn' = <<>> /\ UNCHANGED <<fl, proto, t0>>
FinConn == Fin(conn)
RetStart(r) == op.op = "start" /\ ph = "s" /\ r.rc = 0 /\ FinConn
RetSend(r) ==
  /\ op.op = "send" /\ FinConn
  /\ CASE ph = "sent" -> r.rc = 0 [] ph = "txfail" -> r.rc < 0 [] ph = "tx" -> Len(op.b) + 4 >= 1024 /\ r.rc < 0 [] OTHER -> FALSE
RetRecv(r, t) ==
  /\ op.op = "recv" /\ ph = "rx" /\ FinConn
  /\ IF ~Framing THEN r.rc < 0 /\ r.cbs = <<>>
     ELSE IF HasErr THEN r.rc < 0 /\ r.cbs = <<>>
     ELSE IF Frames = <<>> THEN Waited(t) /\ r.rc = E_TIMEOUT /\ r.cbs = <<>>
     ELSE Waited(t) /\ r.rc = 0 /\ Len(r.cbs) = 1 /\ SameMsgs(r.cbs[1].m)
RetReq(r, t) ==
  /\ op.op = "req" /\ FinConn
  /\ CASE ph = "rx" -> (IF Framing /\ ~HasErr /\ Frames # <<>> THEN Waited(t) /\ r.null = 0 /\ SameMsgs(r.m)
                        ELSE r.null = 1 /\ r.err < 0 /\ (Framing /\ ~HasErr => r.err = E_TIMEOUT /\ Waited(t)))
       [] ph = "txfail" -> r.null = 1 /\ r.err < 0
       [] ph = "tx" -> Len(op.b) + 4 >= 1024 /\ r.null = 1 /\ r.err < 0
       [] OTHER -> FALSE
RetOther(r) ==
  /\ ph = "other" /\ (op.op = "stop" /\ conn # <<>> => r.rc = 0) /\ (op.op = "live" => r.v = 0)
  /\ Fin(IF op.op = "stop" THEN <<>> ELSE conn)
Ret(r, t) == RetStart(r) \/ RetSend(r) \/ RetRecv(r, t) \/ RetReq(r, t) \/ RetOther(r)
=============================================================================
