------------------------------- MODULE MC_L1 -------------------------------
EXTENDS L1
CONSTANTS MaxLen
VARIABLES line, now, done   \* bytes put on the line, clock, result
mvars == <<vars, line, now, done>>
Caps == {0, F_HALFDUPLEX, F_BLOCKDUPLEX + F_HALFDUPLEX, F_L2FRAME, F_P4WAIT, F_P4WAIT + F_BLOCKDUPLEX, F_L2FRAME + F_HALFDUPLEX}
Data == UNION { [1..n -> {0, 255}] : n \in 0..MaxLen }
MInit == \E f \in Caps : Init0(f) /\ line = <<>> /\ now = 0 /\ done = "no"
MCall == ph = "idle" /\ done = "no" /\ \E b \in Data, p \in {0, 5} : Call([op |-> "l1send", b |-> b, p4 |-> p]) /\ UNCHANGED <<line, now, done>>
MTx == ph = "send" /\ LET b == IF Block(op.p4) THEN op.b ELSE <<op.b[pos + 1]>> IN
         \E rc \in {0, -1} : Tx(b, rc, now + op.p4) /\ now' = now + op.p4 /\ line' = (IF rc = 0 THEN line \o b ELSE line) /\ UNCHANGED done
MEcho == ph = "echo" /\ \E b \in {Sent, [Sent EXCEPT ![1] = 255 - @], <<>>} : Echo(b) /\ UNCHANGED <<line, now, done>>
MRet == \E rc \in {0, -1} : Ret([rc |-> rc], now + op.p4) /\ now' = now + op.p4 /\ done' = (IF rc = 0 THEN "ok" ELSE "err") /\ UNCHANGED <<line>>
MStop == done # "no" /\ UNCHANGED mvars
MNext == MCall \/ MTx \/ MEcho \/ (ph # "idle" /\ MRet) \/ MStop
MSpec == MInit /\ [][MNext]_mvars
Prefix == ph # "idle" => line = SubSeq(op.b, 1, Len(line))
Complete == ph = "sent" => line = op.b
NeverFalseOk == (ph = "failed") => ~ENABLED Ret([rc |-> 0], now)
=============================================================================
