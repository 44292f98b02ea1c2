-------------------------------- MODULE Err --------------------------------
(* The pending error and the error texts.                                     *)
EXTENDS VBytes
VARIABLES latch, texts, op
vars == <<latch, texts, op>>
Known == {-1, -2, -3, -4, -5, -6, -7, -8, -16, -17, -18, -19, -20, -21, -22, -32, -40, -41, -43, -44}
Init0 == latch = 0 /\ texts = <<>> /\ op = <<>>
Call(c) == op = <<>> /\ op' = c /\ UNCHANGED <<latch, texts>>
Report(e) == latch' = IF latch = 0 THEN e ELSE latch
Illegal == "Illegal error code"
IsIllegal(s) == Len(s) >= Len(Illegal) /\ SubSeq(s, 1, Len(Illegal)) = Illegal
Ret(r) ==
  /\ op # <<>> /\ op' = <<>>
  /\ CASE op.op = "eset" ->
            /\ r.rc = (IF op.k \in {"i", "if"} THEN op.v ELSE 0)
            /\ (IF op.k \in {"i", "p"} THEN Report(op.v) ELSE UNCHANGED latch) /\ UNCHANGED texts
       [] op.op = "geterr" -> r.rc = latch /\ latch' = 0 /\ UNCHANGED texts
       [] op.op = "elook" ->
            /\ UNCHANGED latch
            /\ IF op.v \in Known
               THEN /\ ~IsIllegal(r.s) /\ Len(r.s) > 0
                    /\ \A i \in DOMAIN texts : (texts[i][1] = op.v) <=> (texts[i][2] = r.s)
                    /\ texts' = Append(texts, <<op.v, r.s>>)
               ELSE IsIllegal(r.s) /\ UNCHANGED texts
       [] op.op = "mall" -> r.null = (IF op.n > 4200 THEN 1 ELSE 0) /\ (IF op.n > 4200 THEN Report(E_BADLEN) ELSE UNCHANGED latch) /\ UNCHANGED texts
       [] op.op = "kset" /\ op.ty = "u8" -> r.rc = -44 /\ Report(-44) /\ UNCHANGED texts
       [] OTHER -> UNCHANGED <<latch, texts>>
=============================================================================
