---------------------------- MODULE D2L7_Trace ----------------------------
EXTENDS D2L7, TraceLib
Init == tr \in 1..Len(Traces) /\ l = 1 /\ Init7(Traces[tr].flags)
Silent == UNCHANGED <<tr, l>>
Next ==
  \/ IsEv("call") /\ E.c.op = "d2" /\ ph = "idle" /\ Call7(E.c, E.t) /\ Adv
  \/ IsEv("call") /\ E.c.op # "d2" /\ Call(E.c, E.t) /\ Same7 /\ Adv
  \/ IsEv("speed") /\ Speed(E.v, E.db) /\ E.sb = 1 /\ E.par = 3 /\ Same7 /\ Adv
  \/ IsEv("wm") /\ Wm(E.b, 0, E.t) /\ Same7 /\ Adv
  \/ IsEv("ib") /\ InitBus(E.type, E.addr, E.tester, E.rc, Traces[tr].kb, E.t) /\ Same7 /\ Adv
  \/ IsEv("tx") /\ Tx(E.b, E.rc, E.t, E.tend) /\ Same7 /\ Adv
  \/ IsEv("in") /\ In(E.b, E.err, E.t) /\ Same7 /\ Adv
  \/ IsEv("in") /\ More /\ Silent
  \/ IsEv("tx") /\ Erase /\ Silent
  \/ IsEv("tx") /\ More /\ Silent
  \/ IsEv("ret") /\ More /\ Silent
  \/ IsEv("ret") /\ op7 = <<>> /\ Ret(E, E.t) /\ Same7 /\ Adv
  \/ IsEv("ret") /\ op7 # <<>> /\ Ret7(E, E.t) /\ Adv
TraceSpec == Init /\ [][Next]_<<vars7, tr, l>>
=============================================================================
