------------------------------ MODULE Raw_Trace ------------------------------
EXTENDS Raw, TraceLib
Init == tr \in 1..Len(Traces) /\ l = 1 /\ Init0(Traces[tr].flags)
Next ==
  \/ IsEv("call") /\ Call(E.c) /\ Adv
  \/ IsEv("tx") /\ Tx(E.b, E.rc) /\ Adv
  \/ IsEv("in") /\ In(E.b, E.err) /\ Adv
  \/ IsEv("ret") /\ Ret(E) /\ Adv
TraceSpec == Init /\ [][Next]_<<vars, tr, l>>
=============================================================================
