------------------------------ MODULE L1_Trace ------------------------------
EXTENDS L1, TraceLib
Init == tr \in 1..Len(Traces) /\ l = 1 /\ Init0(Traces[tr].flags)
Next ==
  \/ IsEv("call") /\ Call(E.c) /\ Adv
  \/ IsEv("tx") /\ Tx(E.b, E.rc, E.t) /\ Adv
  \/ IsEv("ec") /\ Echo(E.b) /\ Adv
  \/ IsEv("rx") /\ (Rx(E.b, E.err) \/ (E.b = <<>> /\ EchoMissing)) /\ Adv
  \/ IsEv("ret") /\ Ret(E, E.t) /\ Adv
TraceSpec == Init /\ [][Next]_<<vars, tr, l>>
=============================================================================
