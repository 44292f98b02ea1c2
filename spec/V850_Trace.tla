---------------------------- MODULE V850_Trace ----------------------------
EXTENDS V850, TraceLib
Init == tr \in 1..Len(Traces) /\ l = 1 /\ VInit(Traces[tr].able) /\ mask = Traces[tr].mask
P(a) == a /\ UNCHANGED v8
Step ==
  \/ IsEv("started") /\ P(Started) /\ Adv
  \/ IsEv("line") /\ Line8(E.s) /\ Adv
  \/ IsEv("eof") /\ Eof8 /\ Adv
  \/ IsEv("out") /\ Out8(E.s) /\ Adv
  \/ IsEv("l0new") /\ P(IfNew(E.n)) /\ Adv
  \/ IsEv("l0del") /\ P(IfDel) /\ Adv
  \/ IsEv("l0close") /\ ((~(pc[1] = "dclose" /\ Link = "d2") /\ P(L0Close(E.was))) \/ Close8(E.was) \/ Left8(E.was)) /\ Adv
  \/ IsEv("l0open") /\ (P(L0Open(E.proto, E.rc)) \/ Open8(E.proto, E.rc)) /\ Adv
  \/ IsEv("speed") /\ (P(Speed(E.v, E.db, E.sb, E.par)) \/ Speed8(E.v, E.db, E.sb, E.par)) /\ Adv
  \/ IsEv("ib") /\ (P(InitBus(E.type, E.addr, E.tester, E.phys, E.rc)) \/ InitBus8(E.type, E.addr, E.tester, E.rc, E.kb)) /\ Adv
  \/ IsEv("tx") /\ (P(Tx(E.b, E.rc)) \/ Tx8(E.b, E.rc)) /\ Adv
  \/ IsEv("in") /\ (P(In(E.b)) \/ In8(E.b)) /\ Adv
  \/ IsEv("key") /\ Key8 /\ Adv
  \/ IsEv("exit") /\ P(Exit(E.rc)) /\ Adv
  \/ IsEv("over") /\ P(Over(E.open, E.timer)) /\ Adv
  \/ IsEv("file") /\ File8(E.s) /\ Adv
  \/ l <= Len(Ev) /\ Silent8 /\ UNCHANGED <<tr, l>>
Next == Step /\ UNCHANGED mask
TraceSpec == Init /\ [][Next]_<<vvars, tr, l>>
=============================================================================
