-------------------------------- MODULE Mb1 --------------------------------
(* MB1 (Mercedes): 5-baud handshake, frames "addr cmd len data sum16".       *)
EXTENDS VBytes
VARIABLES fl, conn, op, ph, rx, t0, w, e
vars == <<fl, conn, op, ph, rx, t0, w, e>>
Init0(f) == fl = f /\ conn = <<>> /\ op = <<>> /\ ph = "idle" /\ rx = <<>> /\ t0 = 0 /\ w = 0 /\ e = 0
Sum16(b) == SumTo(b, Len(b))
WithSum(b) == b \o <<Sum16(b) % 256, (Sum16(b) \div 256) % 256>>
Frame(pay) == WithSum(<<conn.tgt, pay[1], Len(pay) + 4>> \o Tail(pay))
CanSend(pay) == Len(pay) \in 1..251
Whole(b) == Len(b) >= 3 /\ b[3] >= 5 /\ Len(b) >= b[3]
Good(b) == Whole(b) /\ b = WithSum(Take(b, b[3] - 2))
Bad(b) == Len(b) >= 3 /\ b[3] < 5
Msg(b) == <<b[2]>> \o SubSeq(b, 4, b[3] - 2)
Slack == 2
-----------------------------------------------------------------------------
Call(c, t) ==
  /\ ph = "idle" /\ op' = c /\ rx' = <<>> /\ t0' = t /\ e' = 0 /\ UNCHANGED fl
  /\ CASE c.op = "start" -> conn' = [tgt |-> c.tgt, tl |-> t] /\ ph' = "s" /\ w' = 0
       [] c.op \in {"send", "req"} /\ conn # <<>> -> UNCHANGED <<conn, w>> /\ ph' = IF CanSend(c.b) THEN "tx" ELSE "refuse"
       [] c.op = "recv" /\ conn # <<>> -> UNCHANGED conn /\ ph' = "rx" /\ w' = c.w
       [] c.op = "l2timer" /\ conn # <<>> /\ ~HasBit(fl, F_KEEPALIVE) /\ t - conn.tl > 3337 -> UNCHANGED <<conn, w>> /\ ph' = "tx"
       [] OTHER -> UNCHANGED <<conn, w>> /\ ph' = "other"
WantsSpeed == ~HasBit(fl, F_AUTOSPEED) /\ ~HasBit(fl, F_NOTTY)
Speed(v, db) ==
  /\ ph = "s" /\ WantsSpeed /\ v = (IF op.br = 0 THEN 9600 ELSE op.br) /\ db = 8
  /\ ph' = "s_sp" /\ UNCHANGED <<fl, conn, op, rx, t0, w, e>>
InitBus(type, addr, rc, t) ==
  /\ (IF WantsSpeed THEN ph = "s_sp" ELSE ph = "s") /\ type = 2 /\ addr = op.tgt /\ t - t0 >= 299
  /\ ph' = (IF rc < 0 THEN "fail" ELSE "kb") /\ w' = 100 /\ t0' = t + 2000
  /\ UNCHANGED <<fl, conn, op, rx, e>>
Pay == IF op.op = "l2timer" THEN <<80, 1>> ELSE op.b
Tx(b, rc, t, tend) ==
  /\ ph = "tx" /\ (IF rc = 0 THEN b = Frame(Pay) ELSE IsPrefix(b, Frame(Pay))) /\ t - t0 >= 54
  /\ ph' = (IF rc # 0 THEN "fail" ELSE IF op.op = "send" THEN "done" ELSE "rx")
  /\ rx' = <<>> /\ t0' = tend /\ w' = 1000 /\ UNCHANGED <<fl, conn, op, e>>
\* bytes arrive: key bytes one by one, then messages
In(b, err, t) ==
  /\ ph \in {"kb", "rx"} /\ e = 0 /\ t <= t0 + w + 1000 /\ UNCHANGED <<fl, conn, op>>
  /\ IF err # 0 THEN e' = err /\ UNCHANGED <<ph, rx, t0, w>>
     ELSE IF ph = "kb"
     THEN IF Len(rx) = 1 THEN (IF rx[1] = 194 /\ b[1] = 205 THEN ph' = "rx" /\ rx' = <<>> /\ w' = 1000 /\ t0' = t ELSE ph' = "wrongkb" /\ UNCHANGED <<rx, w, t0>>) /\ UNCHANGED e
          ELSE rx' = <<b[1]>> /\ t0' = t /\ UNCHANGED <<ph, w, e>>
     ELSE /\ ~Bad(rx) /\ ~Whole(rx)
          /\ rx' = rx \o b /\ t0' = t /\ w' = 100 /\ UNCHANGED <<ph, e>>
-----------------------------------------------------------------------------
Fin(c) == conn' = c /\ op' = <<>> /\ ph' = "idle" /\ rx' = <<>> /\ UNCHANGED <<fl, t0, w, e>>
Touch(t) == [conn EXCEPT !.tl = t]
Over(t) == Bad(rx) \/ Whole(rx) \/ e # 0 \/ t - t0 \in (w - Slack)..(w + 1300)     \* the reception may be over at time t
Delivered == e = 0 /\ Good(rx)
Ret(r, t) ==
  CASE ph = "other" -> (op.op = "live" => r.v = 0) /\ (IF op.op = "stop" /\ conn # <<>> THEN r.rc = 0 /\ Fin(<<>>) ELSE Fin(conn))
    [] op.op = "start" -> IF r.kb = <<>> THEN (ph = "fail" \/ (ph = "kb" /\ (e # 0 \/ t - t0 >= 98)) \/ (ph = "wrongkb" /\ r.rc = E_WRONGKB)) /\ Fin(<<>>)
                          ELSE ph = "rx" /\ r.rc = 0 /\ r.kb = <<194, 205>> /\ Over(t) /\ Fin(Touch(t))
    [] op.op = "send" -> (CASE ph = "done" -> r.rc = 0 [] ph = "fail" -> r.rc < 0 [] ph = "refuse" -> r.rc < 0 [] OTHER -> FALSE) /\ Fin(IF r.rc = 0 THEN Touch(t) ELSE conn)
    [] op.op = "recv" -> /\ ph = "rx" /\ Over(t)
                         /\ IF Delivered THEN r.rc = 0 /\ Len(r.cbs) = 1 /\ Len(r.cbs[1].m) = 1 /\ r.cbs[1].m[1].b = Msg(rx) ELSE r.rc < 0 /\ r.cbs = <<>>
                         /\ Fin(IF r.rc = 0 THEN Touch(t) ELSE conn)
    [] op.op = "req" -> /\ ph \in {"rx", "fail", "refuse"} /\ (ph = "rx" => Over(t))
                        /\ IF ph = "rx" /\ Delivered THEN r.null = 0 /\ Len(r.m) = 1 /\ r.m[1].b = Msg(rx) ELSE r.null = 1 /\ r.err < 0
                        /\ Fin(IF r.null = 0 THEN Touch(t) ELSE IF ph = "rx" THEN Touch(t0) ELSE conn)
    [] op.op = "l2timer" -> ph \in {"rx", "fail"} /\ (ph = "rx" => Over(t)) /\ Fin(IF ph = "rx" THEN Touch(t0) ELSE conn)
    [] OTHER -> FALSE
=============================================================================
