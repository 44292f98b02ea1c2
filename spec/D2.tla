--------------------------------- MODULE D2 ---------------------------------
(* KWP-D2 (Volvo): the interface performs the initialisation and checksums.  *)
EXTENDS D2Svc
VARIABLES fl, conn, op, ph, turn, t0, left
vars == <<fl, conn, op, ph, turn, t0, left>>
\* ph: idle s s_wm s_ib s_done tx rx refuse fail done other | st (stop) ka (keepalive)
Init0(f) == fl = f /\ conn = <<>> /\ op = <<>> /\ ph = "idle" /\ turn = <<>> /\ t0 = 0 /\ left = 0
Smart == HasBit(fl, F_L2FRAME)
Able == HasBit(fl, F_FULLINIT) /\ HasBit(fl, F_L2CKSUM)
Addr(a, dflt) == IF a = 0 THEN dflt ELSE a
Pay == CASE op.op = "stop" -> <<160>> [] op.op \in {"l2timer"} -> <<161>> [] OTHER -> op.b
Out == IF op.op \in {"send", "req"} THEN Frame(Addr(op.mdest, conn.tgt), Addr(op.msrc, conn.src), op.b)
       ELSE Frame(conn.tgt, conn.src, Pay)
Bufmax == 66
HasErr == \E i \in DOMAIN turn : turn[i].err # 0
Bytes == Take(FlattenB([i \in DOMAIN turn |-> turn[i].b]), Bufmax)
Msg(b) == [b |-> SubSeq(b, 4, Len(b) - 1), dest |-> b[2], src |-> b[3]]
LastT == IF turn = <<>> THEN t0 ELSE turn[Len(turn)].t
-----------------------------------------------------------------------------
Call(c, t) ==
  /\ ph = "idle" /\ op' = c /\ turn' = <<>> /\ t0' = t /\ UNCHANGED <<fl, left>>
  /\ CASE c.op = "start" ->
            /\ conn' = [tgt |-> c.tgt, src |-> c.src, tl |-> t]
            /\ ph' = IF ~Able THEN "noproto" ELSE IF c.fl % 16 # 0 THEN "noinit" ELSE "s"
       [] c.op \in {"send", "req"} /\ conn # <<>> -> UNCHANGED conn /\ ph' = IF Len(c.b) \in 1..62 THEN "tx" ELSE "refuse"
       [] c.op = "recv" /\ conn # <<>> -> UNCHANGED conn /\ ph' = "rx"
       [] c.op = "stop" /\ conn # <<>> -> UNCHANGED conn /\ ph' = "tx"
       [] c.op = "l2timer" /\ conn # <<>> /\ ~HasBit(fl, F_KEEPALIVE) /\ t - conn.tl > 3337 -> UNCHANGED conn /\ ph' = "tx"
       [] OTHER -> UNCHANGED conn /\ ph' = "other"
WantsSpeed == ~HasBit(fl, F_AUTOSPEED) /\ ~HasBit(fl, F_NOTTY)
Speed(v, db) ==
  /\ ph = "s" /\ WantsSpeed /\ v = (IF op.br = 0 THEN 10400 ELSE op.br) /\ db = 8
  /\ ph' = "s_sp" /\ UNCHANGED <<fl, conn, op, turn, t0, left>>
Wm(b, rc, t) ==
  /\ HasBit(fl, F_KEEPALIVE) /\ (IF WantsSpeed THEN ph = "s_sp" ELSE ph = "s")
  /\ b = <<130, op.tgt, op.src, 161>>
  /\ ph' = IF rc < 0 THEN "fail" ELSE "s_wm"
  /\ UNCHANGED <<fl, conn, op, turn, t0, left>>
\* kb: the key bytes the interface reports (<<>>: it does not say)
InitBus(type, addr, tester, rc, kb, t) ==
  /\ IF HasBit(fl, F_KEEPALIVE) THEN ph = "s_wm" ELSE IF WantsSpeed THEN ph = "s_sp" ELSE ph = "s"
  /\ type = 2 /\ addr = OddParity(op.tgt) /\ tester = op.src /\ t - t0 >= 299
  /\ ph' = IF rc < 0 THEN "fail" ELSE IF kb \in {<<>>, <<0, 0>>, <<211, 176>>} THEN "s_done" ELSE "wrongkb"
  /\ UNCHANGED <<fl, conn, op, turn, t0, left>>
Tx(b, rc, t, tend) ==
  /\ ph = "tx" /\ (IF rc = 0 THEN b = Out ELSE IsPrefix(b, Out)) /\ t - t0 >= 54
  /\ ph' = IF rc # 0 THEN "fail" ELSE IF op.op = "send" THEN "done" ELSE "rx"
  /\ turn' = <<>> /\ t0' = tend /\ UNCHANGED <<fl, conn, op, left>>
In(b, err, t) ==
  /\ ph = "rx" /\ UNCHANGED <<fl, conn, op, left>>
  /\ IF op.op # "recv" /\ Smart /\ turn # <<>> /\ ~HasErr /\ Len(Bytes) >= 5 /\ Busy(Bytes, Pay[1])
     THEN turn' = <<[t |-> t, b |-> b, err |-> err]>> /\ t0' = LastT /\ ph' = ph      \* busy notice: wait again
     ELSE /\ IF Smart THEN turn = <<>> ELSE TRUE
          /\ turn' = Append(turn, [t |-> t, b |-> b, err |-> err]) /\ UNCHANGED <<t0, ph>>
-----------------------------------------------------------------------------
W == IF op.op = "recv" THEN op.w + 100 ELSE 1100
\* how a reception phase may have ended at time t: error code or 0
RxEnd(t) ==
  IF turn = <<>> THEN IF t - t0 \in (W - 2)..(W + 400) THEN E_TIMEOUT ELSE 1
  ELSE IF HasErr THEN turn[Len(turn)].err
  ELSE IF Len(Bytes) < 5 THEN E_INCDATA ELSE 0
IsBusyEnd == op.op # "recv" /\ turn # <<>> /\ ~HasErr /\ Len(Bytes) >= 5 /\ Busy(Bytes, Pay[1])
Same(m, r) == m.b = r.b /\ m.dest = r.dest /\ m.src = r.src /\ (r.fmt & 2) = 2
Fin(c) == conn' = c /\ op' = <<>> /\ ph' = "idle" /\ turn' = <<>> /\ UNCHANGED <<fl, t0, left>>
Touch(t) == [conn EXCEPT !.tl = t]
Ret(r, t) ==
  CASE ph = "other" -> (op.op = "live" => r.v = 0) /\ Fin(conn)
    [] op.op = "start" ->
         CASE ph = "noproto" -> r.rc = E_PROTONS /\ Fin(<<>>)
           [] ph = "noinit" -> r.rc = E_INITNS /\ Fin(<<>>)
           [] ph = "wrongkb" -> r.rc = E_WRONGKB /\ Fin(<<>>)
           [] ph = "fail" -> r.rc < 0 /\ Fin(<<>>)
           [] ph = "s_done" -> r.rc = 0 /\ r.kb = <<211, 176>> /\ Fin(Touch(t))
           [] OTHER -> FALSE
    [] op.op = "send" -> (CASE ph = "done" -> r.rc = 0 [] ph = "fail" -> r.rc < 0 [] ph = "refuse" -> r.rc = E_BADLEN [] OTHER -> FALSE)
                         /\ Fin(IF r.rc = 0 THEN Touch(t) ELSE conn)
    [] op.op = "recv" -> /\ ph = "rx" /\ r.rc = RxEnd(t)
                         /\ IF r.rc = 0 THEN Len(r.cbs) = 1 /\ Len(r.cbs[1].m) = 1 /\ Same(Msg(Bytes), r.cbs[1].m[1]) ELSE r.cbs = <<>>
                         /\ Fin(IF r.rc = 0 THEN Touch(t) ELSE conn)
    [] op.op = "req" ->
         /\ CASE ph = "rx" ->
                   IF IsBusyEnd THEN Smart /\ r.null = 1 /\ r.err = E_TIMEOUT /\ t - LastT \in 1098..1500
                   ELSE LET e == RxEnd(t) IN IF e = 0 THEN r.null = 0 /\ Len(r.m) = 1 /\ Same(Msg(Bytes), r.m[1])
                                             ELSE r.null = 1 /\ r.err = e
              [] ph = "fail" -> r.null = 1 /\ r.err < 0
              [] ph = "refuse" -> r.null = 1 /\ r.err = E_BADLEN
              [] OTHER -> FALSE
         /\ Fin(IF r.null = 0 THEN Touch(t) ELSE IF ph = "rx" THEN Touch(t0) ELSE conn)
    [] op.op = "l2timer" -> ph \in {"rx", "fail"} /\ (IF ph = "fail" THEN TRUE ELSE IF IsBusyEnd THEN t - LastT >= 1098 ELSE RxEnd(t) <= 0) /\ Fin(IF ph = "rx" THEN Touch(t0) ELSE conn)
    [] op.op = "stop" ->
         /\ r.rc = 0 /\ ph \in {"rx", "fail"}
         /\ LET ok == ph = "rx" /\ ~IsBusyEnd /\ turn # <<>> /\ RxEnd(t) = 0 IN ok \/ t - LastT >= 5000
         /\ Fin(<<>>)
    [] OTHER -> FALSE
=============================================================================
