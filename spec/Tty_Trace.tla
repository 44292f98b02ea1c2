----------------------------- MODULE Tty_Trace -----------------------------
EXTENDS Tty, TraceLib
Init == tr \in 1..Len(Traces) /\ l = 1 /\ Init0
Next ==
  \/ IsEv("call") /\ Call(E.c, E.u) /\ Adv
  \/ l <= Len(Ev) /\ E.e \in {"opn", "cls", "wr", "rdv", "flsh", "brk", "fail", "arr"} /\ Did(E) /\ Adv
  \/ IsEv("ret") /\ Ret(E) /\ Adv
TraceSpec == Init /\ [][Next]_<<vars, tr, l>>
=============================================================================
