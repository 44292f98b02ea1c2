----------------------------- MODULE Log_Trace -----------------------------
EXTENDS Log, TraceLib
Given == LET F == Traces[tr].files IN [n \in {F[i].n : i \in DOMAIN F} |-> LET f == F[CHOOSE i \in DOMAIN F : F[i].n = n] IN Len(f.rows)]
\* what was there before is still there
Kept == LET F == Traces[tr].files  G == Traces[tr].final IN \A i \in DOMAIN F : \A k \in DOMAIN G : G[k].n = F[i].n => Len(G[k].rows) >= Len(F[i].rows) /\ \A j \in DOMAIN F[i].rows : G[k].rows[j] = F[i].rows[j]
R(n) == LET G == Traces[tr].final IN IF \E k \in DOMAIN G : G[k].n = n THEN G[CHOOSE k \in DOMAIN G : G[k].n = n].rows ELSE <<>>
Init == tr \in 1..Len(Traces) /\ l = 1 /\ LInit(Given) /\ mask = Traces[tr].mask
P(a) == a /\ UNCHANGED <<ob, lg>>
Q(a) == a /\ UNCHANGED lg
Step ==
  \/ IsEv("started") /\ Kept /\ P(Started) /\ Adv
  \/ IsEv("line") /\ LLine(E.s, E.t, R) /\ Adv
  \/ IsEv("play") /\ Play(E.n) /\ Adv
  \/ IsEv("eof") /\ Q(OEof) /\ Adv
  \/ IsEv("out") /\ Q(OOut(E.s)) /\ Adv
  \/ IsEv("l0new") /\ P(IfNew(E.n)) /\ Adv
  \/ IsEv("l0del") /\ P(IfDel) /\ Adv
  \/ IsEv("l0close") /\ (P(L0Close(E.was)) \/ Q(SClose(E.was))) /\ Adv
  \/ IsEv("l0open") /\ P(L0Open(E.proto, E.rc)) /\ Adv
  \/ IsEv("speed") /\ P(Speed(E.v, E.db, E.sb, E.par)) /\ Adv
  \/ IsEv("ib") /\ P(InitBus(E.type, E.addr, E.tester, E.phys, E.rc)) /\ Adv
  \/ IsEv("tx") /\ (P(Tx(E.b, E.rc)) \/ Q(OTx(E.b, E.rc, E.t))) /\ Adv
  \/ IsEv("in") /\ (P(In(E.b)) \/ Q(OIn(E.b))) /\ Adv
  \/ IsEv("key") /\ Q(Key) /\ Adv
  \/ IsEv("exit") /\ P(Exit(E.rc)) /\ Adv
  \/ IsEv("over") /\ P(Over(E.open, E.timer)) /\ Adv
  \/ IsEv("file") /\ File(E.n, E.there, E.len) /\ Adv
  \/ l <= Len(Ev) /\ LSilent(R) /\ UNCHANGED <<tr, l>>
Next == Step /\ UNCHANGED mask
TraceSpec == Init /\ [][Next]_<<lvars, tr, l>>
=============================================================================
