----------------------------- MODULE Opts_Trace -----------------------------
EXTENDS Opts, TraceLib
Init == tr \in 1..Len(Traces) /\ l = 1 /\ Init0(Traces[tr].flags, Traces[tr].mask, Traces[tr].drc)
Next ==
  \/ IsEv("call") /\ Call(E.c) /\ Adv
  \/ l <= Len(Ev) /\ E.e \in {"speed", "wm", "flush", "ioctl", "tx"} /\ Driver(E) /\ Adv
  \/ IsEv("ret") /\ Ret(E) /\ Adv
TraceSpec == Init /\ [][Next]_<<vars, tr, l>>
=============================================================================
