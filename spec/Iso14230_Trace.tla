-------------------------- MODULE Iso14230_Trace --------------------------
EXTENDS Iso14230, TraceLib
Init == tr \in 1..Len(Traces) /\ l = 1 /\ Init0(Traces[tr].flags)
Next ==
  \/ IsEv("call") /\ Call(E.c, E.t) /\ Adv
  \/ IsEv("speed") /\ Speed(E.v) /\ E.db = 8 /\ E.sb = 1 /\ E.par = 3 /\ Adv
  \/ IsEv("ib") /\ InitBus(E.type, E.addr, E.tester, E.phys, E.rc, <<>>, E.t) /\ Adv
  \/ IsEv("tx") /\ E.rc = 0 /\ Tx(E.b, E.t, E.tend) /\ Adv
  \/ IsEv("tx") /\ E.rc # 0 /\ TxFail(E.t) /\ Adv
  \/ IsEv("in") /\ In(E.b, E.err, E.t) /\ Adv
  \/ IsEv("ret") /\ Ret(E, E.t) /\ Adv
TraceSpec == Init /\ [][Next]_<<vars, tr, l>>
=============================================================================
