---------------------------- MODULE J1850_Trace ----------------------------
EXTENDS J1850, TraceLib
Init == tr \in 1..Len(Traces) /\ l = 1 /\ Init0(Traces[tr].flags, Traces[tr].proto)
Next ==
  \/ IsEv("call") /\ Call(E.c, E.t) /\ Adv
  \/ IsEv("tx") /\ Tx(E.b, E.rc, E.tend) /\ Adv
  \/ IsEv("in") /\ In(E.b, E.err, E.t) /\ Adv
  \/ IsEv("ret") /\ Ret(E, E.t) /\ Adv
TraceSpec == Init /\ [][Next]_<<vars, tr, l>>
=============================================================================
