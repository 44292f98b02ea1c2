-------------------------------- MODULE Vag --------------------------------
(* Tester side of a KWP1281 session.  Blocks are [length, counter, title,    *)
(* data.., 3]; on a bare line each byte but the last is confirmed by the     *)
(* receiver with its complement and the two sides take turns sending one     *)
(* block; on a framing interface blocks travel whole.                        *)
EXTENDS VBytes
VARIABLES fl, conn,   \* <<>> or [tgt, kb, seq, master, eid, tl]: eid = unread identification telegram; tl: last activity
          op, ph,     \* current call; phase
          blk, ix, retr,   \* block being sent, bytes confirmed, failed attempts
          kind,       \* why it is sent: "msg" (the caller's), "ack", "noack"
          rx, got,    \* bytes of the block being received; blocks of the telegram so far
          nac, nar, nab,   \* refusals in a row: within the answer, of the request, by us
          t0, w,      \* start of the current wait / earliest time of the next byte; length of the wait
          first       \* a first byte has arrived since the handshake
vars == <<fl, conn, op, ph, blk, ix, retr, kind, rx, got, nac, nar, nab, t0, w, first>>
Framed == HasBit(fl, F_L2FRAME)
ACK == 9
NOACK == 10
ETX == 3
R8 == 55
RB == 1100
NAMax == 5
TOMax == 3
Slack == 2
Off == 20      \* the line layer may wait this much longer than asked
Init0(f) ==
  /\ fl = f /\ conn = <<>> /\ op = <<>> /\ ph = "idle" /\ blk = <<>> /\ ix = 0 /\ retr = 0 /\ kind = "" /\ rx = <<>> /\ got = <<>>
  /\ nac = 0 /\ nar = 0 /\ nab = 0 /\ t0 = 0 /\ w = 0 /\ first = FALSE
Wrap(x) == (x + 256) % 256
Block(seq, type, data) == <<Len(data) + 3, seq, type>> \o data \o <<ETX>>
-----------------------------------------------------------------------------
\* begin sending a block; earliest at time t
SendBlk(b, k, t) == blk' = b /\ ix' = 0 /\ retr' = 0 /\ kind' = k /\ ph' = "txb" /\ t0' = t /\ UNCHANGED <<rx, w>>
Wait(t, d) == ph' = "rxb" /\ rx' = <<>> /\ t0' = t /\ w' = d
NoTx == UNCHANGED <<blk, ix, retr, kind>>
Fail(e) == ph' = "fail" /\ rx' = <<e>> /\ UNCHANGED <<blk, ix, retr, kind, t0, w, nac, nar, nab, got, first>>
-----------------------------------------------------------------------------
Call(c, t) ==
  /\ ph = "idle" /\ op' = c /\ UNCHANGED fl /\ nac' = 0 /\ nar' = 0 /\ nab' = 0
  /\ got' = (IF c.op = "recv" /\ conn # <<>> THEN conn.eid ELSE <<>>)
  /\ CASE c.op = "start" ->
            /\ ph' = "s" /\ conn' = [tgt |-> c.tgt, kb |-> <<0, 0>>, seq |-> 0, master |-> FALSE, eid |-> <<>>, tl |-> t]
            /\ t0' = t /\ first' = FALSE /\ NoTx /\ UNCHANGED <<rx, w>>
       [] c.op \in {"send", "req"} /\ conn # <<>> ->
            /\ conn' = [conn EXCEPT !.eid = <<>>] /\ UNCHANGED first
            /\ IF conn.master /\ Len(c.b) <= 252
               THEN SendBlk(Block(conn.seq, c.mtype, c.b), "msg", t)
               ELSE ph' = "refuse" /\ t0' = t /\ NoTx /\ UNCHANGED <<rx, w>>
       [] c.op = "recv" /\ conn # <<>> /\ conn.eid # <<>> ->
            /\ conn' = [conn EXCEPT !.eid = <<>>]
            /\ ph' = "done" /\ t0' = t /\ NoTx /\ UNCHANGED <<rx, w, first>>
       [] c.op = "recv" /\ conn # <<>> /\ conn.eid = <<>> ->
            /\ UNCHANGED <<conn, first>> /\ ph' = "rxb" /\ rx' = <<>> /\ t0' = t /\ w' = 0 /\ NoTx
       [] c.op = "l2timer" /\ conn # <<>> ->
            /\ UNCHANGED <<conn, first>>
            /\ IF ~HasBit(fl, F_KEEPALIVE) /\ t - conn.tl > 502 THEN (IF conn.master THEN SendBlk(Block(conn.seq, ACK, <<>>), "msg", t) ELSE ph' = "done" /\ t0' = t /\ NoTx /\ UNCHANGED <<rx, w>>)
               ELSE IF ~HasBit(fl, F_KEEPALIVE) /\ t - conn.tl > 498 THEN (IF conn.master THEN SendBlk(Block(conn.seq, ACK, <<>>), "opt", t) ELSE ph' = "done" /\ t0' = t /\ NoTx /\ UNCHANGED <<rx, w>>)
               ELSE ph' = "done" /\ t0' = t /\ NoTx /\ UNCHANGED <<rx, w>>
       [] OTHER -> ph' = "other" /\ t0' = t /\ NoTx /\ UNCHANGED <<conn, rx, w, first>>
WantsSpeed == ~HasBit(fl, F_AUTOSPEED) /\ ~HasBit(fl, F_NOTTY)
Speed(v, db) ==
  /\ ph = "s" /\ WantsSpeed /\ v = (IF op.br = 0 THEN 10400 ELSE op.br) /\ db = 8
  /\ ph' = "s_init" /\ UNCHANGED <<fl, conn, op, blk, ix, retr, kind, rx, got, nac, nar, nab, t0, w, first>>
InitBus(type, addr, rc, t) ==
  /\ (IF WantsSpeed THEN ph = "s_init" ELSE ph = "s") /\ type = 2 /\ addr = op.tgt /\ t - t0 >= 299
  /\ IF rc < 0 THEN Fail(0) /\ UNCHANGED conn
     ELSE ph' = "s_kb" /\ rx' = <<>> /\ t0' = t /\ NoTx /\ UNCHANGED <<conn, got, nac, nar, nab, w, first>>
  /\ UNCHANGED <<fl, op>>
-----------------------------------------------------------------------------
(* a complete block has been received (whole, correct or not) *)
BadBlk(b) == b[Len(b)] # ETX \/ b[2] % 2 = 0 \/ b[2] # conn.seq + 1
Retry(m, seq) == m.type = NOACK /\ m.b # <<>> /\ m.b[1] = Wrap(seq - 2)
Done(g, c) == ph' = "done" /\ got' = g /\ conn' = c /\ NoTx /\ UNCHANGED <<rx, t0, w, nac, nar, nab>>
\* the telegram g is complete
Telegram(g, c, t) ==
  IF op.op = "req" /\ Retry(g[1], c.seq)
  THEN IF nar + 1 = NAMax THEN ph' = "fail" /\ rx' = <<E_ECUNO>> /\ conn' = c /\ got' = <<>> /\ NoTx /\ UNCHANGED <<t0, w, nac, nar, nab>>
       ELSE nar' = nar + 1 /\ nac' = 0 /\ nab' = 0 /\ got' = <<>> /\ conn' = c /\ SendBlk(Block(c.seq, op.mtype, op.b), "msg", t)
  ELSE Done(g, c)
Process(b, t) ==
  IF ~Framed /\ BadBlk(b)
  THEN IF nab = NAMax THEN Fail(E_BADDATA) /\ UNCHANGED conn
       ELSE LET s == Wrap(conn.seq + 2) IN
            /\ nab' = nab + 1 /\ conn' = [conn EXCEPT !.seq = s, !.master = TRUE]
            /\ SendBlk(Block(s, NOACK, <<b[2]>>), "noack", t) /\ UNCHANGED <<got, nac, nar>>
  ELSE LET m == [type |-> b[3], b |-> SubSeq(b, 4, Len(b) - 1)]
           c == [conn EXCEPT !.seq = Wrap(b[2] + 1), !.master = TRUE]
       IN IF got = <<>> /\ m.type \in {ACK, NOACK} THEN Telegram(<<m>>, c, t)
          ELSE IF m.type = ACK THEN Telegram(got, c, t)
          ELSE IF m.type = NOACK /\ nac + 1 = NAMax THEN ph' = "fail" /\ rx' = <<E_ECUNO>> /\ conn' = c /\ got' = <<>> /\ NoTx /\ UNCHANGED <<t0, w, nac, nar, nab>>
          ELSE /\ nac' = (IF m.type = NOACK THEN nac + 1 ELSE 0) /\ nab' = 0 /\ UNCHANGED nar
               /\ got' = (IF m.type = NOACK THEN got ELSE Append(got, m)) /\ conn' = c
               /\ SendBlk(Block(c.seq, ACK, <<>>), "ack", t)
-----------------------------------------------------------------------------
\* the block has left completely at time t: the ECU's turn
Sent(t) ==
  /\ conn' = [conn EXCEPT !.master = FALSE, !.tl = t]
  /\ IF kind = "msg" /\ op.op = "send" THEN ph' = "done" /\ t0' = t /\ NoTx /\ UNCHANGED <<rx, w>>
     ELSE Wait(t, RB) /\ NoTx
  /\ UNCHANGED <<nac, nar, nab, got>>
Tx(b, rc, t, tend) ==
  /\ UNCHANGED <<fl, op>>
  /\ \/ /\ ph = "s_kb" /\ ~HasBit(fl, F_SLOWINIT) /\ Len(rx) = 2 /\ b = <<Not8(rx[2])>> /\ t - t0 >= 24
        /\ conn' = [conn EXCEPT !.kb = rx]
        /\ IF rc # 0 THEN Fail(0) ELSE Wait(t, 50) /\ NoTx /\ UNCHANGED <<nac, nar, nab, got, first>>
     \/ /\ ph = "txb" /\ Framed /\ b = blk /\ t >= t0
        /\ IF rc # 0 THEN Fail(0) /\ UNCHANGED conn ELSE Sent(t) /\ UNCHANGED first
     \/ /\ ph = "txb" /\ ~Framed /\ b = <<blk[ix + 1]>> /\ t >= t0
        /\ IF rc # 0 THEN Fail(0) /\ UNCHANGED conn
           ELSE IF ix + 1 = Len(blk) THEN Sent(t) /\ UNCHANGED first
           ELSE ph' = "txc" /\ t0' = t /\ UNCHANGED <<conn, blk, ix, retr, kind, rx, w, nac, nar, nab, got, first>>
     \/ \* no complement within R8: once more from the start
        /\ ph = "txc" /\ retr < TOMax /\ b = <<blk[1]>> /\ t - t0 >= 2 * R8 - Slack
        /\ IF rc # 0 THEN Fail(0) /\ UNCHANGED conn
           ELSE /\ ix' = 0 /\ retr' = retr + 1 /\ t0' = t
                /\ UNCHANGED <<ph, conn, blk, kind, rx, w, nac, nar, nab, got, first>>
     \/ /\ ph = "rxn" /\ b = <<Not8(rx[Len(rx)])>> /\ t >= t0 + 1
        /\ IF rc # 0 THEN Fail(0) /\ UNCHANGED conn
           ELSE ph' = "rxb" /\ t0' = t /\ w' = R8 /\ UNCHANGED <<conn, blk, ix, retr, kind, rx, nac, nar, nab, got, first>>
In(b, err, t) ==
  /\ UNCHANGED <<fl, op>>
  /\ CASE err # 0 /\ ph \in {"txc", "rxb", "s_kb"} -> Fail(0) /\ UNCHANGED conn
       [] err = 0 /\ ph = "s_kb" /\ Len(rx) < 2 ->
            IF Len(rx) = 1 /\ HasBit(fl, F_SLOWINIT)
            THEN /\ conn' = [conn EXCEPT !.kb = Append(rx, b[1])] /\ Wait(t, 50) /\ NoTx /\ UNCHANGED <<nac, nar, nab, got, first>>
            ELSE /\ rx' = Append(rx, b[1]) /\ t0' = t /\ UNCHANGED <<conn, ph, blk, ix, retr, kind, w, nac, nar, nab, got, first>>
       [] err = 0 /\ ph = "txc" ->
            IF b = <<Not8(blk[ix + 1])>>
            THEN ix' = ix + 1 /\ ph' = "txb" /\ t0' = t + 1 /\ UNCHANGED <<conn, blk, retr, kind, rx, w, nac, nar, nab, got, first>>
            ELSE IF retr < TOMax
            THEN ix' = 0 /\ ph' = "txb" /\ retr' = retr + 1 /\ t0' = t0 + 2 * R8 - Slack /\ UNCHANGED <<conn, blk, kind, rx, w, nac, nar, nab, got, first>>
            ELSE Fail(E_BADCS) /\ UNCHANGED conn
       [] err = 0 /\ ph = "rxb" /\ ~Framed ->
            \E again \in {FALSE, TRUE} :                     \* past the first wait: the ECU has started its block again
            LET r == IF again THEN b ELSE rx \o b IN
            /\ (IF again THEN t - t0 > w /\ ~(rx = <<>> /\ ~first /\ op.op = "start") ELSE t - t0 <= w + Off)
            /\ first' = TRUE
            /\ IF r[1] < 3 THEN ph' = "fail" /\ rx' = <<E_BADDATA>> /\ UNCHANGED <<conn, blk, ix, retr, kind, t0, w, nac, nar, nab, got>>
               ELSE IF Len(r) = r[1] + 1 THEN Process(r, t)
               ELSE ph' = "rxn" /\ rx' = r /\ t0' = (IF again THEN t - 1 ELSE t) /\ UNCHANGED <<conn, blk, ix, retr, kind, w, nac, nar, nab, got>>
       [] err = 0 /\ ph = "rxb" /\ Framed ->
            IF Len(b) < 4 \/ b[1] < 3 \/ Len(b) < b[1] + 1 THEN Fail(E_BADDATA) /\ UNCHANGED conn
            ELSE Process(Take(b, b[1] + 1), t) /\ first' = TRUE
       [] OTHER -> FALSE
\* only the end byte is missing: taken as received
LostEnd ==
  /\ ph = "rxb" /\ ~Framed /\ Len(rx) >= 3 /\ Len(rx) = rx[1]
  /\ Process(Append(rx, ETX), t0 + 2 * R8 - Slack) /\ UNCHANGED <<fl, op, first>>
-----------------------------------------------------------------------------
Fin(c) == conn' = c /\ op' = <<>> /\ ph' = "idle" /\ UNCHANGED <<fl, blk, ix, retr, kind, rx, got, nac, nar, nab, t0, w, first>>
\* the call ended with error e at time t, as the phase demands
Failed(e, t) ==
  /\ e < 0
  /\ CASE ph = "fail" -> rx[1] \in {0, e}
       [] ph = "refuse" -> TRUE
       [] ph = "txc" -> retr = TOMax /\ e = E_TIMEOUT /\ t - t0 >= R8 - Slack
       [] ph = "rxb" -> IF Framed THEN e = E_TIMEOUT /\ t - t0 >= w - Slack
                        ELSE IF op.op = "start" /\ ~first THEN e = -22 /\ t - t0 >= w - Slack
                        ELSE e = E_TIMEOUT /\ t - t0 >= w + R8 - Slack /\ (IF rx = <<>> THEN TRUE ELSE Len(rx) # rx[1])
       [] ph = "s_kb" -> e = E_TIMEOUT /\ Len(rx) < 2
       [] OTHER -> FALSE
Lost == ph \in {"fail", "refuse", "txc", "rxb", "s_kb"}
Msgs(g, ms) == Len(g) = Len(ms) /\ \A i \in DOMAIN g : g[i].b = ms[i].b /\ g[i].type = ms[i].type
Ret(r, t) ==
  IF ph = "other" THEN (op.op = "live" => r.v = 0) /\ (op.op = "stop" /\ conn # <<>> => r.rc = 0 /\ t - t0 >= 1099) /\ Fin(IF op.op = "stop" THEN <<>> ELSE conn)
  ELSE CASE op.op = "start" ->
              IF r.kb # <<>> THEN r.rc = 0 /\ ph = "done" /\ r.kb = conn.kb /\ Fin([conn EXCEPT !.eid = got, !.tl = t])
              ELSE (\E e \in {r.rc} \cup (IF r.rc = 0 THEN {E_TIMEOUT, E_BADDATA, E_BADCS, E_ECUNO, -22} ELSE {}) : Failed(e, t)) /\ Fin(<<>>)
         [] op.op = "send" -> IF r.rc = 0 THEN ph = "done" /\ Fin([conn EXCEPT !.tl = t]) ELSE Failed(r.rc, t) /\ Fin(conn)
         [] op.op = "recv" -> IF r.rc = 0 THEN ph = "done" /\ Len(r.cbs) = 1 /\ Msgs(got, r.cbs[1].m) /\ Fin([conn EXCEPT !.tl = t])
                              ELSE Failed(r.rc, t) /\ r.cbs = <<>> /\ Fin(conn)
         [] op.op = "req" -> IF r.null = 0 THEN ph = "done" /\ Msgs(got, r.m) /\ Fin([conn EXCEPT !.tl = t])
                             ELSE Failed(r.err, t) /\ Fin(conn)
         [] op.op = "l2timer" -> /\ IF ph = "txb" /\ kind = "opt" /\ ix = 0 THEN TRUE ELSE ph # "txb"
                                 /\ IF Lost /\ ph # "fail" THEN (IF ph = "rxb" /\ ~Framed THEN t - t0 >= w + R8 - Slack ELSE TRUE) ELSE TRUE
                                 /\ Fin([conn EXCEPT !.tl = IF ph = "done" /\ got # <<>> THEN t ELSE @])
         [] OTHER -> FALSE
=============================================================================
