---------------------------- MODULE Serial_Trace ---------------------------
EXTENDS Serial, TraceLib
Init == tr \in 1..Len(Traces) /\ l = 1 /\ Init0
Next ==
  \/ IsEv("call") /\ Call(E.c, E.t) /\ Adv
  \/ l <= Len(Ev) /\ E.e \in {"topen", "tclose", "tset", "fl", "tx", "rd", "ctl", "brk"} /\ Port(E) /\ Adv
  \/ IsEv("ret") /\ Ret(E) /\ Adv
TraceSpec == Init /\ [][Next]_<<vars, tr, l>>
=============================================================================
