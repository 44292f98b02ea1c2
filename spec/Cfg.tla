-------------------------------- MODULE Cfg --------------------------------
(* Configuration items of the interface drivers.  Values are written as       *)
(* strings; "<none>" is an item without value.                                *)
EXTENDS VBytes
VARIABLES it, ports, op, armed
vars == <<it, ports, op, armed>>
None == "<none>"
BADCFG == -44
NOMEM == -3
Init0 == it = [h \in 0..3 |-> <<>>] /\ ports = <<>> /\ op = <<>> /\ armed = FALSE
Call(c) ==
  /\ op = <<>> /\ op' = c /\ UNCHANGED it
  /\ armed' = (c.arm # 0)
  /\ ports' = (IF c.op = "kports" THEN c.p ELSE ports)
Num(v) == ToString(v)
B(v) == IF v # 0 THEN "1" ELSE "0"
Val(ty, v, s) == CASE ty = "int" -> Num(v) [] ty = "u8" -> Num(v % 256) [] ty = "bool" -> B(v) [] OTHER -> s
New(c) == [ty |-> IF c.ty = "tty" THEN "str" ELSE c.ty, tty |-> c.ty = "tty",
           val |-> Val(c.ty, c.v, IF c.ty = "tty" THEN "/dev/null" ELSE c.s), def |-> Val(c.ty, c.def, IF c.ty = "tty" THEN "/dev/null" ELSE c.s), opts |-> <<>>]
Put(i) == it' = [it EXCEPT ![op.h] = i]
Keep == UNCHANGED it
\* the call ended with rc: on success item i results; out of memory it stays as it was
Try(r, i) == IF r.rc = 0 THEN Put(i) ELSE armed /\ r.rc = NOMEM /\ Keep
Shown(r, i) == r.v = i.val /\ r.n = Len(i.opts)
Ret(r) ==
  /\ op # <<>> /\ op' = <<>> /\ UNCHANGED <<ports, armed>>
  /\ CASE op.op = "knew" -> IF r.rc = 0 THEN Put(New(op)) /\ Shown(r, New(op)) ELSE armed /\ Keep
       [] op.op \in {"kset", "kself", "kopt", "kopts", "kget", "kreset", "kclear", "kref", "kdel"} /\ it[op.h] = <<>> -> r.rc = 1 /\ Keep
       [] op.op = "kdel" -> Put(<<>>)
       [] op.op = "live" -> ((\A h \in 0..3 : it[h] = <<>>) => r.v = 0) /\ Keep
       [] op.op \in {"kset", "kself", "kopt", "kopts", "kget", "kreset", "kclear", "kref"} ->
            LET i == it[op.h] IN
            /\ CASE op.op = "kset" -> IF op.ty # i.ty THEN r.rc = BADCFG /\ Keep ELSE Try(r, [i EXCEPT !.val = Val(op.ty, op.v, op.s)])
                 [] op.op = "kself" -> IF i.ty # "str" THEN r.rc = BADCFG /\ Keep ELSE Try(r, [i EXCEPT !.val = IF @ = None THEN "x" ELSE @])
                 [] op.op = "kopt" -> IF op.v < 0 \/ op.v >= Len(i.opts) THEN r.rc = BADCFG /\ Keep
                                      ELSE Try(r, [i EXCEPT !.val = IF i.ty = "str" THEN i.opts[op.v + 1] ELSE Num(op.v)])
                 [] op.op = "kopts" -> r.rc = 0 /\ Put([i EXCEPT !.opts = op.p])
                 [] op.op = "kget" -> (IF r.rc = 0 THEN r.g = (IF i.val = None THEN "" ELSE i.val) ELSE armed) /\ Keep
                 [] op.op = "kreset" -> r.rc = 0 /\ \/ Put(IF i.def = None THEN i ELSE [i EXCEPT !.val = i.def])
                                                    \/ armed /\ i.ty = "str" /\ Keep
                 [] op.op = "kclear" -> r.rc = 0 /\ Put(IF i.ty = "str" THEN [i EXCEPT !.val = None, !.def = None, !.opts = <<>>] ELSE i)
                 [] OTHER -> r.rc = 0 /\ (IF ~i.tty THEN Keep
                               ELSE \/ Put([i EXCEPT !.opts = ports, !.def = IF ports = <<>> THEN @ ELSE ports[1]])
                                    \/ armed /\ Put([i EXCEPT !.opts = <<>>]))
            /\ Shown(r, it'[op.h])
       [] OTHER -> Keep
=============================================================================
