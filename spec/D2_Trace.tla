------------------------------ MODULE D2_Trace ------------------------------
EXTENDS D2, TraceLib
Init == tr \in 1..Len(Traces) /\ l = 1 /\ Init0(Traces[tr].flags)
Next ==
  \/ IsEv("call") /\ Call(E.c, E.t) /\ Adv
  \/ IsEv("speed") /\ Speed(E.v, E.db) /\ E.sb = 1 /\ E.par = 3 /\ Adv
  \/ IsEv("wm") /\ Wm(E.b, Traces[tr].wmrc, E.t) /\ Adv
  \/ IsEv("ib") /\ InitBus(E.type, E.addr, E.tester, E.rc, Traces[tr].kb, E.t) /\ Adv
  \/ IsEv("tx") /\ Tx(E.b, E.rc, E.t, E.tend) /\ Adv
  \/ IsEv("in") /\ In(E.b, E.err, E.t) /\ Adv
  \/ IsEv("ret") /\ Ret(E, E.t) /\ Adv
TraceSpec == Init /\ [][Next]_<<vars, tr, l>>
=============================================================================
