---------------------------- MODULE MC_Iso14230 ----------------------------
(* Model checking of the request state machine of Iso14230 with an arbitrary *)
(* ECU (busy / pending / negative / positive / corrupt frames, silence), and *)
(* generation of behaviours that are replayed on the real code.              *)
EXTENDS Iso14230
CONSTANTS MaxIn, Smartness
VARIABLES now, hist, done, result
mvars == <<vars, now, hist, done, result>>
Flags == IF Smartness = 1 THEN 3 + F_AUTOSPEED + F_NOTTY + F_L2FRAME ELSE 3 + F_AUTOSPEED + F_NOTTY
C0 == [md |-> 15, func |-> FALSE, j1978 |-> FALSE, tgt |-> 16, src |-> 241, kb |-> <<143, 143>>,
       mode |-> 1, est |-> TRUE, first |-> FALSE, phys |-> 16]
F(p) == LET b == <<128 + Len(p), 241, 16>> \o p IN b \o <<Sum8(b)>>
Bad(p) == LET f == F(p) IN [f EXCEPT ![Len(f)] = (f[Len(f)] + 1) % 256]
Answers == { F(<<127, 33, 33>>), F(<<127, 33, 120>>), F(<<127, 33, 16>>), F(<<127>>), F(<<97, 5>>), Bad(<<97, 5>>), Bad(<<127, 33, 33>>), <<64, 1>> }
Req == [op |-> "req", b |-> <<33, 5>>, mdest |-> 0, msrc |-> 0, fl |-> 0, w |-> 0, tgt |-> 0, src |-> 0]
MInit == /\ Init0(Flags) /\ now = 0 /\ hist = << <<>> >> /\ done = FALSE /\ result = <<>>
Start == /\ conn = <<>> /\ ph = "idle" /\ ~done
         /\ conn' = C0 /\ cur' = Req /\ ph' = "tx" /\ UNCHANGED <<fl, turn, ntx, nbusy, t0, tact, now, hist, done, result>>
Send == /\ ph \in {"tx", "rx"} /\ LET t == now + 60 IN
           /\ Tx(ThisTx, t, t) /\ now' = t
           /\ hist' = (IF ntx = 0 THEN hist ELSE Append(hist, <<>>))
        /\ UNCHANGED <<done, result>>
NIn == Len(FlattenB(hist))
\* the ECU answers within P2max, in separate runs (gap 40) or back to back (gap 2)
Answer == /\ ph = "rx" /\ NIn < MaxIn /\ ~done
          /\ \E b \in Answers, g \in {30, 45} :
             LET dt == IF turn = <<>> THEN 30 ELSE g IN
             /\ In(b, 0, now + dt) /\ now' = now + dt
             /\ hist' = [hist EXCEPT ![Len(hist)] = Append(@, <<dt, b>>)]
          /\ UNCHANGED <<done, result>>
Finish == /\ ph = "rx" /\ ~done
          /\ LET t == (IF turn = <<>> THEN t0 ELSE turn[Len(turn)].t) + 200
                 o == ReqOutcome
                 r == [op |-> "req", null |-> IF o.null THEN 1 ELSE 0,
                       err |-> CASE o.err = "timeout" -> E_TIMEOUT [] o.err = "refused" -> E_ECUNO [] o.err = "none" -> 0 [] OTHER -> E_BADDATA, m |-> o.ms]
             IN /\ RetReq(r, t) /\ now' = t /\ result' = r
          /\ done' = TRUE /\ UNCHANGED hist
Stop == done /\ UNCHANGED mvars
MNext == Start \/ Send \/ Answer \/ Finish \/ Stop
MSpec == MInit /\ [][MNext]_mvars /\ WF_mvars(Start \/ Send \/ Finish)
-----------------------------------------------------------------------------
(* properties of the specification *)
AtMost4 == ntx <= 4
RetransOnlyOnBusy == ph = "rx" => ntx = nbusy + 1
NeverPending == (done /\ result.null = 0) => ~IsPending(result.m[1]) /\ ~BusyHeads(result.m)
RefusalFlagged == (done /\ result.null = 0) => ((result.err = E_ECUNO) <=> IsNeg(result.m[1]))
NullHasError == (done /\ result.null = 1) => result.err < 0
\* a frame with a damaged checksum is never delivered as good
BadMarked == (done /\ result.null = 0) => \A i \in DOMAIN result.m :
   (~HasBit(result.m[i].fmt, 16)) => \E f \in Answers : f # Bad(<<97,5>>) /\ f # Bad(<<127,33,33>>)
        /\ Len(f) > 3 /\ SubSeq(f, 4, Len(f) - 1) = result.m[i].b
\* every request terminates (bounded number of answers and of repeats)
Terminates == <>(done)
Emit == done => PrintT(<<"BEHAVIOUR", ToJson([turns |-> hist, null |-> result.null, err |-> result.err, m |-> [i \in DOMAIN result.m |-> result.m[i].b]])>>)
=============================================================================
