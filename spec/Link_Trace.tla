----------------------------- MODULE Link_Trace -----------------------------
EXTENDS Link, TraceLib
Init == tr \in 1..Len(Traces) /\ l = 1 /\ Init0(Traces[tr].flags, Traces[tr].masks)
Next ==
  \/ IsEv("call") /\ Call(E.c, E.t) /\ Adv
  \/ IsEv("l0open") /\ HwOpen(E.d, E.proto, E.rc) /\ Adv
  \/ IsEv("l0close") /\ HwClose(E.d) /\ Adv
  \/ IsEv("tx") /\ Act(E.d, E.rc, E.th, TRUE) /\ Adv
  \/ (IsEv("ib") \/ IsEv("speed") \/ IsEv("wm")) /\ Act(E.d, 0, 0, FALSE) /\ Adv
  \/ IsEv("nt0") /\ NestBegin(E.t) /\ Adv
  \/ IsEv("nt1") /\ NestEnd(E.t) /\ Adv
  \/ IsEv("rt0") /\ RaceBegin(E.t) /\ Adv
  \/ IsEv("rt1") /\ RaceEnd(E.t) /\ Adv
  \/ IsEv("tcreate") /\ Timer(1) /\ Adv
  \/ IsEv("tdelete") /\ Timer(-1) /\ Adv
  \/ IsEv("ret") /\ Ret(E, E.t) /\ Adv
TraceSpec == Init /\ [][Next]_<<vars, tr, l>>
=============================================================================
