--------------------------------- MODULE Raw ---------------------------------
(* Raw connection: bytes pass through unchanged in both directions.           *)
EXTENDS VBytes
VARIABLES fl, conn, op, ph, sent, rxb, errs, held
vars == <<fl, conn, op, ph, sent, rxb, errs, held>>
Init0(f) == fl = f /\ conn = FALSE /\ op = <<>> /\ ph = "idle" /\ sent = <<>> /\ rxb = <<>> /\ errs = <<>> /\ held = <<>>
Call(c) ==
  /\ ph = "idle" /\ op' = c /\ sent' = <<>> /\ rxb' = <<>> /\ errs' = <<>>
  /\ ph' = (IF c.op \in {"send", "req"} /\ conn THEN "tx" ELSE IF c.op = "recv" /\ conn THEN "rx" ELSE "other")
  /\ UNCHANGED <<fl, conn, held>>
\* bytes leave in order and exactly as given
Tx(b, rc) ==
  /\ ph = "tx" /\ Len(sent) + Len(b) <= Len(op.b)
  /\ b = SubSeq(op.b, Len(sent) + 1, Len(sent) + Len(b))
  /\ sent' = (IF rc = 0 THEN sent \o b ELSE sent)
  /\ ph' = IF rc # 0 THEN "fail" ELSE IF Len(sent) + Len(b) = Len(op.b) THEN "rx" ELSE "tx"
  /\ UNCHANGED <<fl, conn, op, rxb, errs, held>>
In(b, err) ==
  /\ ph = "rx" /\ op.op \in {"recv", "req"} /\ UNCHANGED <<fl, conn, op, ph, sent, held>>
  /\ IF err # 0 THEN errs' = Append(errs, err) /\ UNCHANGED rxb ELSE rxb' = rxb \o b /\ UNCHANGED errs
Good(m, b) == m.b = b /\ m.fmt = 0
Fin == ph' = "idle" /\ op' = <<>> /\ UNCHANGED <<fl, sent, rxb, errs>>
RetOther(r) ==
  /\ ph = "other" /\ Fin
  /\ conn' = (CASE op.op = "start" -> r.rc = 0 [] op.op = "stop" -> FALSE [] OTHER -> conn)
  /\ (op.op = "start" => r.rc = 0)
  /\ (op.op = "gshow" => IF r.m = <<>> THEN TRUE ELSE Len(r.m) = 1 /\ held # <<>> /\ r.m[1].b = held)
  /\ UNCHANGED held
RetSend(r) ==
  /\ op.op = "send" /\ Fin /\ UNCHANGED <<conn, held>>
  /\ CASE ph = "rx" -> r.rc = 0
       [] ph = "fail" -> r.rc < 0
       [] ph = "tx" -> (op.b = <<>> \/ Len(op.b) > 1024) /\ r.rc < 0
       [] OTHER -> FALSE
RetRecv(r) ==
  /\ op.op = "recv" /\ ph = "rx" /\ Fin /\ UNCHANGED <<conn, held>>
  /\ IF rxb = <<>> THEN r.rc < 0 /\ r.cbs = <<>> /\ (errs = <<>> => r.rc = E_TIMEOUT)
     ELSE r.rc = 0 /\ Len(r.cbs) = 1 /\ Len(r.cbs[1].m) = 1 /\ Good(r.cbs[1].m[1], rxb)
RetReq(r) ==
  /\ op.op = "req" /\ Fin /\ UNCHANGED conn
  /\ IF ph = "rx" /\ rxb # <<>>
     THEN r.null = 0 /\ Len(r.m) = 1 /\ Good(r.m[1], rxb) /\ held' = (IF op.keep > 0 THEN rxb ELSE held)
     ELSE r.null = 1 /\ r.err < 0 /\ held' = (IF op.keep > 0 THEN <<>> ELSE held)
Ret(r) == RetOther(r) \/ RetSend(r) \/ RetRecv(r) \/ RetReq(r)
=============================================================================
