----------------------------- MODULE Cli_Trace -----------------------------
EXTENDS Cli, TraceLib
Init == tr \in 1..Len(Traces) /\ l = 1 /\ Init0
Files == Traces[tr].files
Next ==
  \/ IsEv("cli") /\ Begin(E.f, Files) /\ Adv
  \/ IsEv("line") /\ ReadUser(E.s) /\ Adv
  \/ IsEv("eof") /\ Eof /\ Adv
  \/ IsEv("out") /\ Out(E.s) /\ Adv
  \/ IsEv("log") /\ Log(E.a) /\ Adv
  \/ IsEv("run") /\ (RunCmd(E.m, E.n, E.a) \/ AskCustom(E.m, E.n, E.a)) /\ Adv
  \/ IsEv("atexit") /\ AtExit /\ Adv
  \/ IsEv("over") /\ Over /\ Adv
  \/ l <= Len(Ev) /\ Silent(Files) /\ UNCHANGED <<tr, l>>
TraceSpec == Init /\ [][Next]_<<vars, tr, l>>
=============================================================================
