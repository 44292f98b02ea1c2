------------------------------ MODULE TraceLib ------------------------------
(* Batch trace validation: every recorded scenario is one initial state; a    *)
(* register per scenario remembers the furthest event that could be explained *)
(* by the specification.  Run with -workers 1.                                *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC
LOCAL INSTANCE Json
LOCAL INSTANCE IOUtils
VARIABLES tr, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Ev == Traces[tr].ev
E == Ev[l]
IsEv(k) == l <= Len(Ev) /\ E.e = k
Adv == l' = l + 1 /\ UNCHANGED tr
Progress == IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE
ProgressDbg == PrintT(<<"AT", tr, l, IF l <= Len(Ev) THEN E ELSE <<>> >>) /\ Progress
Accepted == \A i \in 1..Len(Traces) :
   TLCGet(i) > Len(Traces[i].ev) \/ PrintT(<<"REJECT", Traces[i].id, TLCGet(i)>>)
=============================================================================
