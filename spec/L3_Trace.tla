------------------------------ MODULE L3_Trace ------------------------------
EXTENDS L3, TraceLib
Init == tr \in 1..Len(Traces) /\ l = 1 /\ Init0(Traces[tr].conns)
Next ==
  \/ IsEv("call") /\ Call(E.c @@ [t |-> E.t], E.t) /\ Adv
  \/ IsEv("tx") /\ Tx(E.d, E.b, E.rc, E.t, E.tend) /\ Adv
  \/ IsEv("in") /\ In(E.d, E.b, E.err, E.t) /\ Adv
  \/ IsEv("ret") /\ Ret(E, E.t) /\ Adv
  \/ IsEv("rt0") /\ Call([op |-> "l3timer", t |-> E.t], E.t) /\ Adv
  \/ IsEv("rt1") /\ RetTimer(E.t) /\ Adv
  \/ IsEv("call") /\ BgCall(E.c) /\ Adv
  \/ IsEv("ret") /\ BgRet(E) /\ Adv
TraceSpec == Init /\ [][Next]_<<vars, tr, l>>
=============================================================================
