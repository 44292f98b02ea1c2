----------------------------- MODULE Elm_Trace -----------------------------
EXTENDS Elm, TraceLib
Init == tr \in 1..Len(Traces) /\ l = 1 /\ Init0
Next ==
  \/ IsEv("call") /\ Call(E.c, E.t) /\ Adv
  \/ Begin /\ UNCHANGED <<tr, l>>
  \/ IsEv("topen") /\ Topen(E) /\ Adv
  \/ IsEv("tset") /\ Tset(E) /\ Adv
  \/ IsEv("fl") /\ Flush /\ Adv
  \/ IsEv("tx") /\ Tx(E) /\ Adv
  \/ IsEv("rd") /\ Rd(E) /\ Adv
  \/ IsEv("tclose") /\ Tclose /\ Adv
  \/ IsEv("ret") /\ Ret(E) /\ Adv
TraceSpec == Init /\ [][Next]_<<vars, tr, l>>
=============================================================================
