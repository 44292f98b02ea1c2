------------------------------ MODULE Iso9141 ------------------------------
(* Tester side of an ISO9141-2 connection: 5-baud handshake, transmission of *)
(* 68 6A frames, reception of 48 6B frames split by their timing.            *)
EXTENDS VBytes
VARIABLES fl, conn, op, ph, turn, t0
vars == <<fl, conn, op, ph, turn, t0>>
Init0(f) == fl = f /\ conn = <<>> /\ op = <<>> /\ ph = "idle" /\ turn = <<>> /\ t0 = 0
Smart == HasBit(fl, F_L2FRAME)
NoHdrs == HasBit(fl, F_NOHDRS)
Strip == HasBit(fl, F_STRIPCK)
MaxLen == 11
-----------------------------------------------------------------------------
\* transmitted frame
Frame(src, pay) ==
  LET body == <<104, 106, src>> \o pay IN
  IF HasBit(fl, F_DATAONLY) THEN pay ELSE body \o (IF HasBit(fl, F_L2CKSUM) THEN <<>> ELSE <<Sum8(body)>>)
CanSend(pay) == Len(pay) \in 1..7
-----------------------------------------------------------------------------
(* received bytes -> messages *)
RECURSIVE Cut(_)
Cut(b) == IF Len(b) <= MaxLen THEN <<b>> ELSE <<Take(b, MaxLen)>> \o Cut(Drop(b, MaxLen))
RECURSIVE Runs(_)
Runs(bs) ==
  IF Len(bs) = 1 THEN <<bs[1].b>>
  ELSE LET r == Runs(Tail(bs)) IN
       IF bs[2].t - bs[1].t <= 20 THEN <<bs[1].b \o r[1]>> \o Tail(r) ELSE <<bs[1].b>> \o r
RECURSIVE CutAll(_)
CutAll(rs) == IF rs = <<>> THEN <<>> ELSE Cut(rs[1]) \o CutAll(Tail(rs))
HasErr == \E i \in DOMAIN turn : turn[i].err # 0
Chunks == IF Smart THEN [i \in DOMAIN turn |-> turn[i].b] ELSE CutAll(Runs(turn))
HL == IF NoHdrs THEN 0 ELSE 3
Good(b) == /\ Len(b) >= HL + 1 + Bit(~Strip, 1)
           /\ NoHdrs \/ (b[1] = 72 /\ b[2] = 107)
           /\ Smart \/ ~NoHdrs
Msg(b) == LET n == Len(b) - Bit(~Strip, 1)  bad == ~Strip /\ Sum8(Take(b, n)) # b[Len(b)] IN
  [b |-> Drop(Take(b, n), HL), src |-> IF NoHdrs THEN 0 ELSE b[3], dest |-> IF NoHdrs THEN 0 ELSE 241,
   fmt |-> Bit(bad, 16) + Bit(~bad, 2) + 8]
AllGood == ~HasErr /\ \A i \in DOMAIN Chunks : Good(Chunks[i])
SameMsgs(rs) == LET cs == Chunks IN Len(cs) = Len(rs) /\ \A i \in DOMAIN cs :
   LET m == Msg(cs[i]) IN m.b = rs[i].b /\ m.src = rs[i].src /\ m.dest = rs[i].dest /\ m.fmt = (rs[i].fmt & 26)
Waited(t) == HasErr \/ (IF turn = <<>> THEN t - t0 >= (IF op.op = "recv" THEN op.w ELSE 50) - 1 /\ t - t0 <= (IF op.op = "recv" THEN op.w ELSE 50) + 400
                        ELSE t - turn[Len(turn)].t >= 49 /\ t - turn[Len(turn)].t <= 600)
-----------------------------------------------------------------------------
Call(c, t) ==
  /\ ph = "idle" /\ op' = c /\ turn' = <<>> /\ t0' = t /\ UNCHANGED fl
  /\ CASE c.op = "start" -> ph' = "s" /\ conn' = [src |-> c.src, tgt |-> c.tgt, kb |-> <<0, 0>>, est |-> FALSE]
       [] c.op \in {"send", "req"} /\ conn # <<>> -> ph' = (IF CanSend(c.b) THEN "tx" ELSE "refuse") /\ UNCHANGED conn
       [] c.op = "recv" /\ conn # <<>> -> ph' = "rx" /\ UNCHANGED conn
       [] OTHER -> ph' = "other" /\ UNCHANGED conn
WantsSpeed == ~HasBit(fl, F_AUTOSPEED) /\ ~HasBit(fl, F_NOTTY)
Speed(v, db) ==
  /\ ph = "s" /\ WantsSpeed /\ v = (IF op.br = 0 THEN 10400 ELSE op.br) /\ db = 8
  /\ ph' = "s_init" /\ UNCHANGED <<fl, conn, op, turn, t0>>
Ready == ph = "s_init" \/ (ph = "s" /\ ~WantsSpeed)
Mode == op.fl & 15
InitBus(type, addr, rc, t) ==
  /\ Ready /\ Mode = 0 /\ type = 2 /\ addr = op.tgt /\ t - t0 >= 299
  /\ ph' = IF rc < 0 THEN "s_fail" ELSE IF HasBit(fl, F_FULLINIT) THEN "s_done" ELSE "s_kb"
  /\ turn' = <<>> /\ t0' = t /\ UNCHANGED <<fl, conn, op>>
RxBytes == FlattenB([i \in DOMAIN turn |-> turn[i].b])
Kb == RxBytes
KbOk == ~HasErr /\ Len(Kb) >= 2 /\ Kb[1] = Kb[2] /\ Kb[1] \in {8, 148}
LastT == IF turn = <<>> THEN t0 ELSE turn[Len(turn)].t
Tx(b, rc, t, tend) ==
  \/ /\ ph = "tx" /\ (IF rc = 0 THEN b = Frame(conn.src, op.b) ELSE IsPrefix(b, Frame(conn.src, op.b))) /\ t - t0 >= 54
     /\ ph' = (IF rc # 0 THEN "txfail" ELSE IF op.op = "send" THEN "sent" ELSE "rx")
     /\ turn' = <<>> /\ t0' = tend /\ UNCHANGED <<fl, conn, op>>
  \/ /\ ph = "s_kb" /\ ~HasBit(fl, F_SLOWINIT) /\ Len(Kb) = 2 /\ KbOk /\ b = <<Not8(Kb[2])>> /\ t - LastT >= 24
     /\ conn' = [conn EXCEPT !.kb = Kb] /\ ph' = (IF rc # 0 THEN "s_fail" ELSE "s_ack") /\ turn' = <<>> /\ t0' = tend
     /\ UNCHANGED <<fl, op>>
In(b, err, t) ==
  /\ ph \in {"rx", "s_kb", "s_ack"}
  /\ turn' = Append(turn, [t |-> t, b |-> b, err |-> err]) /\ UNCHANGED <<fl, conn, op, ph, t0>>
-----------------------------------------------------------------------------
Fin(c) == conn' = c /\ op' = <<>> /\ ph' = "idle" /\ turn' = <<>> /\ UNCHANGED <<fl, t0>>
FinConn == Fin(conn)
RetStart(r, t) ==
  /\ op.op = "start"
  /\ \/ Ready /\ Mode = 3 /\ r.rc = 0 /\ FinConn
     \/ Ready /\ Mode \notin {0, 3} /\ r.rc = E_INITNS /\ Fin(<<>>)
     \/ ph = "s_fail" /\ r.rc < 0 /\ Fin(<<>>)
     \/ ph = "s_done" /\ r.rc = 0 /\ Fin([conn EXCEPT !.kb = <<8, 8>>])
     \/ ph = "s_kb" /\ ~KbOk /\ r.rc = E_WRONGKB /\ (Kb = <<>> /\ ~HasErr => t - t0 >= 19) /\ Fin(<<>>)
     \/ ph = "s_kb" /\ KbOk /\ HasBit(fl, F_SLOWINIT) /\ r.rc = 0 /\ r.kb = Kb /\ Fin([conn EXCEPT !.kb = Kb])
     \/ /\ ph = "s_ack"
        /\ IF turn = <<>> THEN r.rc = E_TIMEOUT /\ t - t0 >= 49 /\ Fin(<<>>)
           ELSE IF HasErr THEN r.rc < 0 /\ Fin(<<>>)
           ELSE IF RxBytes[1] = Not8(op.tgt) THEN r.rc = 0 /\ r.kb = conn.kb /\ FinConn
           ELSE r.rc = E_BADDATA /\ Fin(<<>>)
RetSend(r) ==
  /\ op.op = "send" /\ FinConn
  /\ CASE ph = "sent" -> r.rc = 0 [] ph = "txfail" -> r.rc < 0 [] ph = "refuse" -> r.rc < 0 [] OTHER -> FALSE
RetRecv(r, t) ==
  /\ op.op = "recv" /\ ph = "rx" /\ FinConn /\ Waited(t)
  /\ IF turn = <<>> THEN r.rc = E_TIMEOUT /\ r.cbs = <<>>
     ELSE IF AllGood THEN r.rc = 0 /\ Len(r.cbs) = 1 /\ SameMsgs(r.cbs[1].m)
     ELSE r.rc < 0 /\ r.cbs = <<>>
RetReq(r, t) ==
  /\ op.op = "req" /\ FinConn
  /\ CASE ph = "rx" -> Waited(t) /\ (IF turn # <<>> /\ AllGood THEN r.null = 0 /\ SameMsgs(r.m)
                                     ELSE r.null = 1 /\ r.err < 0 /\ (turn = <<>> => r.err = E_TIMEOUT))
       [] ph \in {"txfail", "refuse"} -> r.null = 1 /\ r.err < 0
       [] OTHER -> FALSE
RetOther(r) ==
  /\ ph = "other" /\ (op.op = "stop" /\ conn # <<>> => r.rc = 0)
  /\ (op.op = "live" => r.v = 0)
  /\ Fin(IF op.op = "stop" THEN <<>> ELSE conn)
Ret(r, t) == RetStart(r, t) \/ RetSend(r) \/ RetRecv(r, t) \/ RetReq(r, t) \/ RetOther(r)
=============================================================================
