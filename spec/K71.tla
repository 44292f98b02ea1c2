-------------------------------- MODULE K71 --------------------------------
(* KWP71 services over the KWP1281 link (module Vag).                         *)
EXTENDS Vag, K71Svc
VARIABLES op7, stage
vars7 == <<vars, op7, stage>>
Init7(f) == Init0(f) /\ op7 = <<>> /\ stage = 0
Blank == [op |-> "req", fl |-> 0, br |-> 0, tgt |-> 0, src |-> 0, b |-> <<>>, w |-> 0, mtype |-> 0]
Fill(d, n) == [i \in 1..n |-> IF i <= Len(d) THEN d[i] ELSE 204]
Call7(c, t) ==
  /\ op7' = c /\ stage' = 1
  /\ IF conn # <<>> /\ Title(c) >= 0 THEN Call([Blank EXCEPT !.mtype = Title(c), !.b = Args(c)], t)
     ELSE ph' = "none" /\ t0' = t /\ UNCHANGED <<fl, conn, op, blk, ix, retr, kind, rx, got, nac, nar, nab, w, first>>
\* codes are stored: after half a second the erase request goes out
Erase(t) ==
  /\ op7 # <<>> /\ op7.f = "cleardtc" /\ stage = 1 /\ ph = "done" /\ Fits(op7, got[1]) /\ Codes(got[1]) # <<>>
  /\ stage' = 2 /\ UNCHANGED <<fl, op7, first>>
  /\ op' = [Blank EXCEPT !.mtype = 5] /\ nac' = 0 /\ nar' = 0 /\ nab' = 0 /\ got' = <<>>
  /\ UNCHANGED conn
  /\ IF conn.master THEN SendBlk(Block(conn.seq, 5, <<>>), "msg", MaxI(t0, conn.tl) + 498)
     ELSE ph' = "refuse" /\ t0' = t /\ NoTx /\ UNCHANGED <<rx, w>>
NoOut(r) == r.out = Fill(<<>>, op7.n)
Ret7(r, t) ==
  /\ op7 # <<>>
  /\ CASE ph = "none" -> (IF conn = <<>> THEN r.rc = 1 ELSE r.rc = -1) /\ NoOut(r)
       [] ph = "done" /\ stage = 2 -> r.rc = (IF got[1].type = ACK THEN 1 ELSE E_ECUNO) /\ NoOut(r)
       [] ph = "done" /\ stage = 1 ->
            IF ~Fits(op7, got[1]) THEN r.rc = E_ECUNO /\ NoOut(r)
            ELSE CASE op7.f = "ping" -> r.rc = 0 /\ NoOut(r)
                   [] op7.f = "cleardtc" -> Codes(got[1]) = <<>> /\ r.rc = 0 /\ NoOut(r)
                   [] op7.f = "dtclist" -> r.rc = Len(Codes(got[1])) /\ r.out = Fill(Codes(got[1]), op7.n)
                   [] OTHER -> r.rc = (IF Len(got[1].b) < op7.n THEN Len(got[1].b) ELSE op7.n) /\ r.out = Fill(got[1].b, op7.n)
       [] OTHER -> Failed(r.rc, t) /\ NoOut(r)
  /\ op7' = <<>> /\ stage' = 0 /\ Fin(IF ph = "done" THEN [conn EXCEPT !.tl = t] ELSE conn)
Same7 == UNCHANGED <<op7, stage>>
=============================================================================
