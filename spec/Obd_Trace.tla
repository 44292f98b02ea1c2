----------------------------- MODULE Obd_Trace -----------------------------
EXTENDS Obd, TraceLib
Init == tr \in 1..Len(Traces) /\ l = 1 /\ OInit /\ mask = Traces[tr].mask
P(a) == a /\ UNCHANGED ob
Step ==
  \/ IsEv("started") /\ P(Started) /\ Adv
  \/ IsEv("line") /\ OLine(E.s) /\ Adv
  \/ IsEv("eof") /\ OEof /\ Adv
  \/ IsEv("out") /\ OOut(E.s) /\ Adv
  \/ IsEv("l0new") /\ P(IfNew(E.n)) /\ Adv
  \/ IsEv("l0del") /\ P(IfDel) /\ Adv
  \/ IsEv("l0close") /\ (P(L0Close(E.was)) \/ SClose(E.was)) /\ Adv
  \/ IsEv("l0open") /\ P(L0Open(E.proto, E.rc)) /\ Adv
  \/ IsEv("speed") /\ P(Speed(E.v, E.db, E.sb, E.par)) /\ Adv
  \/ IsEv("ib") /\ P(InitBus(E.type, E.addr, E.tester, E.phys, E.rc)) /\ Adv
  \/ IsEv("tx") /\ (P(Tx(E.b, E.rc)) \/ OTx(E.b, E.rc, E.t)) /\ Adv
  \/ IsEv("in") /\ (P(In(E.b)) \/ OIn(E.b)) /\ Adv
  \/ IsEv("key") /\ Key /\ Adv
  \/ IsEv("exit") /\ P(Exit(E.rc)) /\ Adv
  \/ IsEv("over") /\ P(Over(E.open, E.timer)) /\ Adv
  \/ l <= Len(Ev) /\ OSilent /\ UNCHANGED <<tr, l>>
Next == Step /\ UNCHANGED mask
TraceSpec == Init /\ [][Next]_<<ovars, tr, l>>
=============================================================================
