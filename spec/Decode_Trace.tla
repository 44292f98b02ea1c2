---------------------------- MODULE Decode_Trace ----------------------------
EXTENDS Decode, TraceLib
Init == tr \in 1..Len(Traces) /\ l = 1 /\ Init0
Next ==
  \/ IsEv("call") /\ Call(E.c) /\ Adv
  \/ IsEv("ret") /\ Ret(E) /\ Adv
TraceSpec == Init /\ [][Next]_<<vars, tr, l>>
=============================================================================
