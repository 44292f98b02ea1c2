-------------------------------- MODULE Msg --------------------------------
(* Message chains (module diag_general): a slot holds a chain, a chain is a   *)
(* sequence of messages.  Chains are values: nothing done to one shows in     *)
(* another.                                                                   *)
EXTENDS VBytes
MaxLen == 4200
VARIABLES slot, op, armed
vars == <<slot, op, armed>>
Slots == 0..7
Init0 == slot = [h \in Slots |-> <<>>] /\ op = <<>> /\ armed = FALSE
NewMsg(n) == [fmt |-> 0, type |-> 0, dest |-> 0, src |-> 0, rx |-> 0, len |-> n, b |-> [i \in 1..n |-> 0]]
Call(c) ==
  /\ op = <<>> /\ op' = c /\ UNCHANGED slot
  /\ armed' = (c.arm # 0)
SetMsg(m, c) == [m EXCEPT !.fmt = c.fmt, !.type = c.type, !.dest = c.dest, !.src = c.src, !.rx = c.rx, !.b = Take(c.b, m.len) \o Drop(m.b, Len(c.b))]
Set(h, ch) == slot' = [slot EXCEPT ![h] = ch]
Null(r) == r.null = 1
\* contents of a new message are the caller's business until it writes them
Ret(r) ==
  /\ op # <<>> /\ op' = <<>> /\ UNCHANGED armed
  /\ CASE op.op = "mall" -> IF op.n > MaxLen THEN Null(r) /\ Set(op.h, <<>>)
                            ELSE IF Null(r) THEN armed /\ Set(op.h, <<>>) ELSE Set(op.h, <<NewMsg(op.n)>>)
       [] op.op = "mset" -> LET k == op.k + 1 IN IF k \in DOMAIN slot[op.h] THEN Set(op.h, [slot[op.h] EXCEPT ![k] = SetMsg(@, op)]) ELSE UNCHANGED slot
       [] op.op = "mlink" -> slot' = [slot EXCEPT ![op.h] = @ \o slot[op.a], ![op.a] = <<>>]
       [] op.op = "mcut" -> slot' = IF slot[op.h] = <<>> THEN slot ELSE [slot EXCEPT ![op.h] = Take(@, op.k), ![op.a] = Drop(slot[op.h], op.k)]
       [] op.op = "mpeel" -> IF slot[op.h] # <<>> /\ slot[op.h][1].len >= op.n
                             THEN Set(op.h, [slot[op.h] EXCEPT ![1] = [@ EXCEPT !.len = @ - op.n, !.b = Drop(@, op.n)]]) ELSE UNCHANGED slot
       [] op.op = "mdup" -> IF Null(r) THEN armed /\ Set(op.h, <<>>) ELSE Set(op.h, slot[op.a])
       [] op.op = "mdup1" -> IF Null(r) THEN armed /\ Set(op.h, <<>>) ELSE Set(op.h, Take(slot[op.a], 1))
       [] op.op = "mfree" -> Set(op.h, <<>>)
       [] op.op = "mshow" -> r.m = slot[op.h] /\ UNCHANGED slot
       [] op.op = "mcks" -> r.rc = Sum8(op.b) /\ UNCHANGED slot
       [] op.op = "live" -> ((\A h \in Slots : slot[h] = <<>>) <=> r.v = 0) /\ UNCHANGED slot
       [] OTHER -> UNCHANGED slot
=============================================================================
