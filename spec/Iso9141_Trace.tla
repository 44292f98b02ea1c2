--------------------------- MODULE Iso9141_Trace ---------------------------
EXTENDS Iso9141, TraceLib
Init == tr \in 1..Len(Traces) /\ l = 1 /\ Init0(Traces[tr].flags)
Next ==
  \/ IsEv("call") /\ Call(E.c, E.t) /\ Adv
  \/ IsEv("speed") /\ Speed(E.v, E.db) /\ E.sb = 1 /\ E.par = 3 /\ Adv
  \/ IsEv("ib") /\ InitBus(E.type, E.addr, E.rc, E.t) /\ Adv
  \/ IsEv("tx") /\ Tx(E.b, E.rc, E.t, E.tend) /\ Adv
  \/ IsEv("in") /\ In(E.b, E.err, E.t) /\ Adv
  \/ IsEv("ret") /\ Ret(E, E.t) /\ Adv
TraceSpec == Init /\ [][Next]_<<vars, tr, l>>
=============================================================================
