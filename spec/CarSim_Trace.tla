----------------------------- MODULE CarSim_Trace -----------------------------
EXTENDS CarSim, TraceLib
Init == tr \in 1..Len(Traces) /\ l = 1 /\ Init0
Next ==
  \/ IsEv("call") /\ Call(E.c) /\ Adv
  \/ IsEv("ret") /\ Ret(E, Traces[tr].dbs) /\ Adv
TraceSpec == Init /\ [][Next]_<<vars, tr, l>>
=============================================================================
