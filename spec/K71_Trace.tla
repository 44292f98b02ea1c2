----------------------------- MODULE K71_Trace -----------------------------
EXTENDS K71, TraceLib
Init == tr \in 1..Len(Traces) /\ l = 1 /\ Init7(Traces[tr].flags)
Next ==
  \/ IsEv("call") /\ E.c.op = "k71" /\ ph = "idle" /\ Call7(E.c, E.t) /\ Adv
  \/ IsEv("call") /\ E.c.op # "k71" /\ Call(E.c, E.t) /\ Same7 /\ Adv
  \/ IsEv("speed") /\ Speed(E.v, E.db) /\ E.sb = 1 /\ E.par = 3 /\ Same7 /\ Adv
  \/ IsEv("ib") /\ InitBus(E.type, E.addr, E.rc, E.t) /\ Same7 /\ Adv
  \/ IsEv("tx") /\ Tx(E.b, E.rc, E.t, E.tend) /\ Same7 /\ Adv
  \/ IsEv("in") /\ In(E.b, E.err, E.t) /\ Same7 /\ Adv
  \/ IsEv("ret") /\ op7 = <<>> /\ Ret(E, E.t) /\ Same7 /\ Adv
  \/ IsEv("ret") /\ op7 # <<>> /\ Ret7(E, E.t) /\ Adv
  \/ l <= Len(Ev) /\ E.e \in {"tx", "ret"} /\ Erase(E.t) /\ UNCHANGED <<tr, l>>
  \/ l <= Len(Ev) /\ E.e \in {"tx", "ret"} /\ LostEnd /\ Same7 /\ UNCHANGED <<tr, l>>
TraceSpec == Init /\ [][Next]_<<vars7, tr, l>>
=============================================================================
