----------------------------- MODULE Prog_Trace -----------------------------
EXTENDS Prog, TraceLib
Init == tr \in 1..Len(Traces) /\ l = 1 /\ Init0 /\ mask = Traces[tr].mask
Step ==
  \/ IsEv("started") /\ Started /\ Adv
  \/ IsEv("line") /\ Line(E.s) /\ Adv
  \/ IsEv("eof") /\ Eof /\ Adv
  \/ IsEv("out") /\ Out(E.s) /\ Adv
  \/ IsEv("l0new") /\ IfNew(E.n) /\ Adv
  \/ IsEv("l0del") /\ IfDel /\ Adv
  \/ IsEv("l0close") /\ L0Close(E.was) /\ Adv
  \/ IsEv("l0open") /\ L0Open(E.proto, E.rc) /\ Adv
  \/ IsEv("speed") /\ Speed(E.v, E.db, E.sb, E.par) /\ Adv
  \/ IsEv("ib") /\ InitBus(E.type, E.addr, E.tester, E.phys, E.rc) /\ Adv
  \/ IsEv("tx") /\ Tx(E.b, E.rc) /\ Adv
  \/ IsEv("in") /\ In(E.b) /\ Adv
  \/ IsEv("exit") /\ Exit(E.rc) /\ Adv
  \/ IsEv("over") /\ Over(E.open, E.timer) /\ Adv
  \/ l <= Len(Ev) /\ Silent /\ UNCHANGED <<tr, l>>
Next == Step /\ UNCHANGED mask
TraceSpec == Init /\ [][Next]_<<vars, tr, l>>
=============================================================================
