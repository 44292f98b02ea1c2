-------------------------------- MODULE D2L7 --------------------------------
(* Volvo D2 services over the D2 link (module D2): each service is one or two *)
(* link requests; its result is what the matching positive answer carries, or *)
(* an error.                                                                  *)
EXTENDS D2
VARIABLES op7, stage, cnt, keep
vars7 == <<vars, op7, stage, cnt, keep>>
Init7(f) == Init0(f) /\ op7 = <<>> /\ stage = 0 /\ cnt = 0 /\ keep = <<>>
Fill(d, n) == [i \in 1..n |-> IF i <= Len(d) THEN d[i] ELSE 204]
Blank == [op |-> "req", b |-> <<>>, mdest |-> 0, msrc |-> 0, w |-> 0]
-----------------------------------------------------------------------------
Call7(c, t) ==
  /\ op7' = c /\ stage' = 1 /\ cnt' = 0 /\ keep' = <<>>
  /\ IF conn # <<>> /\ Request(c) # <<>> THEN Call([Blank EXCEPT !.b = Request(c)], t)
     ELSE ph' = "none" /\ UNCHANGED <<fl, conn, op, turn, t0, left>>
\* the answer to the current request is a message
Answered == ph = "rx" /\ op.op = "req" /\ turn # <<>> /\ ~HasErr /\ Len(Bytes) >= 5 /\ ~IsBusyEnd
Ans == Msg(Bytes).b
\* a full list may be followed by more answers; one is awaited and dropped
More ==
  /\ op7 # <<>> /\ op7.f \in {"dtclist", "cleardtc"} /\ stage = 1 /\ Answered /\ Positive(op7, Ans) /\ Len(Ans) = 14
  /\ stage' = 2 /\ cnt' = Len(Ans) - 2 /\ keep' = Data(op7, Ans)
  /\ op' = [op EXCEPT !.op = "recv", !.w = 1000] /\ t0' = LastT /\ turn' = <<>> /\ UNCHANGED <<fl, conn, ph, left, op7>>
Erase ==
  /\ op7 # <<>> /\ op7.f = "cleardtc"
  /\ \/ stage = 1 /\ Answered /\ Positive(op7, Ans) /\ Len(Ans) > 2 /\ Len(Ans) # 14
     \/ stage = 2
  /\ stage' = 3 /\ op' = [Blank EXCEPT !.b = <<175, 1>>] /\ ph' = "tx" /\ t0' = LastT /\ turn' = <<>> /\ UNCHANGED <<fl, conn, left, op7, cnt, keep>>
-----------------------------------------------------------------------------
\* error the link request ends with at time t
LinkErr(e, t) ==
  CASE ph = "rx" -> IF IsBusyEnd THEN e = E_TIMEOUT /\ t - LastT \in 1098..1500 ELSE e = RxEnd(t)
    [] ph = "fail" -> e < 0
    [] OTHER -> FALSE
Failed7(r) == r.out = Fill(<<>>, op7.n)
Ret7(r, t) ==
  /\ op7 # <<>>
  /\ CASE ph = "none" -> (IF conn = <<>> THEN r.rc = 1 ELSE r.rc = -1) /\ Failed7(r)
       [] stage = 2 /\ op7.f = "dtclist" -> (turn # <<>> \/ t - t0 >= 1098) /\ r.rc = cnt /\ r.out = Fill(keep, op7.n)
       [] stage = 3 -> /\ Failed7(r)
                       /\ IF Answered THEN r.rc = (IF Ans = <<239, 1>> THEN 1 ELSE E_ECUNO) ELSE LinkErr(r.rc, t)
       [] stage = 1 /\ Answered ->
            IF ~Positive(op7, Ans) THEN r.rc = E_ECUNO /\ Failed7(r)
            ELSE CASE op7.f \in {"ping", "run", "io"} -> r.rc = 0 /\ Failed7(r)
                   [] op7.f = "cleardtc" -> Len(Ans) = 2 /\ r.rc = 0 /\ Failed7(r)
                   [] op7.f = "dtclist" -> Len(Ans) # 14 /\ r.rc = Len(Ans) - 2 /\ r.out = Fill(Data(op7, Ans), op7.n)
                   [] OTHER -> r.rc = Len(Data(op7, Ans)) /\ r.out = Fill(Data(op7, Ans), op7.n)
       [] stage = 1 /\ ~Answered -> LinkErr(r.rc, t) /\ Failed7(r)
       [] OTHER -> FALSE
  /\ op7' = <<>> /\ stage' = 0 /\ cnt' = 0 /\ keep' = <<>> /\ Fin(conn)
Same7 == UNCHANGED <<op7, stage, cnt, keep>>
=============================================================================
