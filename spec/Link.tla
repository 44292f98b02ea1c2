-------------------------------- MODULE Link --------------------------------
(* Hardware interfaces, links, connections and the periodic upkeep.          *)
(* A link binds one interface to one line protocol; a connection owns a link *)
(* from a successful start to its stop; the periodic pass sends keepalives   *)
(* for the connections that have been idle too long.                         *)
EXTENDS VBytes
VARIABLES fl, mask,   \* interface capabilities, supported line protocols
          lk, hw,     \* link protocol per interface (0: none), hardware open
          cn,         \* connection id -> [live, d, prot, tlo, thi, mon]
          done, nt,   \* shutdown begun; number of live periodic timers
          op, hwe,    \* current call, hardware events during it
          acted, txok,\* interfaces used by the call itself; it transmitted something successfully
          pass,       \* upkeep pass in progress: [k, t, seen, cur, ok] or <<>>
          nest,       \* ticks being delivered from inside a driver call (a tick inside a pass does nothing)
          clean       \* nothing was live when the allocation count was marked
vars == <<fl, mask, lk, hw, cn, done, nt, op, hwe, acted, txok, pass, nest, clean>>
Dev == 0..3
Cid == 0..5
Dead == [live |-> FALSE, d |-> 0, prot |-> 0, tlo |-> 0, thi |-> 0, mon |-> FALSE]
Init0(f, m) ==
  /\ fl = [d \in Dev |-> f[d + 1]] /\ mask = [d \in Dev |-> m[d + 1]]
  /\ lk = [d \in Dev |-> 0] /\ hw = [d \in Dev |-> FALSE] /\ cn = [c \in Cid |-> Dead]
  /\ done = FALSE /\ nt = 1 /\ op = <<>> /\ hwe = <<>> /\ acted = {} /\ txok = FALSE /\ pass = <<>> /\ nest = 0 /\ clean = FALSE
Idle == op = <<>>
Known == {0, 1, 3, 4, 6, 7, 9, 10}
UpkeepProto == {3, 6, 7, 9}
Interval(p) == IF p = 6 THEN 500 ELSE 3333
Users(d) == {c \in Cid : cn[c].live /\ cn[c].d = d}
-----------------------------------------------------------------------------
(* which connections a pass at time t must / may serve *)
Eligible(c) == /\ cn[c].live /\ cn[c].prot \in UpkeepProto /\ ~cn[c].mon
               /\ ~HasBit(fl[cn[c].d], F_KEEPALIVE) /\ ~done
MustServe(c, t) == Eligible(c) /\ t - cn[c].thi > Interval(cn[c].prot) + 3
MayServe(c, t) == Eligible(c) /\ t - cn[c].tlo > Interval(cn[c].prot) - 3
\* the connection a call is starting, stopping or otherwise replacing
Busy(c) == op # <<>> /\ op.op = "stop" /\ op.c = c
NoPass == pass = <<>>
TickOp == ~Idle /\ op.op \in {"l2timer", "tick"}
NewPass(k, t) == [k |-> k, t |-> t, seen |-> {}, cur |-> -1, ok |-> {}]
Served(t, tend, skip) == \A c \in Cid : MustServe(c, t) /\ c \notin skip => cn[c].d \in pass.seen
AfterPass(tend) == [c \in Cid |->
   IF cn[c].live /\ cn[c].d \in pass.seen
   THEN IF cn[c].d \in pass.ok THEN [cn[c] EXCEPT !.tlo = IF cn[c].prot = 6 THEN @ ELSE pass.t, !.thi = tend]
        ELSE cn[c]
   ELSE cn[c]]
-----------------------------------------------------------------------------
Call(c, t) ==
  /\ Idle /\ op' = [c EXCEPT !.t = t] /\ hwe' = <<>> /\ acted' = {} /\ txok' = FALSE
  /\ pass' = (IF c.op \in {"l2timer", "tick"} /\ NoPass THEN NewPass("op", t) ELSE pass)
  /\ UNCHANGED <<fl, mask, lk, hw, cn, done, nt, nest, clean>>
\* hardware opened / closed
HwOpen(d, proto, rc) ==
  /\ ~Idle /\ op.op = "l2open" /\ d = op.d /\ lk[d] = 0 /\ ~hw[d] /\ proto = op.p /\ HasBit(mask[d], proto)
  /\ hwe = <<>>
  /\ hwe' = Append(hwe, <<"open", rc>>) /\ hw' = [hw EXCEPT ![d] = (rc = 0)]
  /\ UNCHANGED <<fl, mask, lk, cn, done, nt, op, acted, txok, pass, nest, clean>>
HwClose(d) ==
  /\ ~Idle /\ op.op \in {"l2close", "l2open"} /\ d = op.d /\ hw[d] /\ Users(d) = {}
  /\ op.op = "l2open" => hwe # <<>>
  /\ hwe' = Append(hwe, <<"close", 0>>) /\ hw' = [hw EXCEPT ![d] = FALSE]
  /\ UNCHANGED <<fl, mask, lk, cn, done, nt, op, acted, txok, pass, nest, clean>>
\* line activity on interface d: kind "tx" (rc) or other driver work
OwnDev == CASE op.op = "start" -> IF lk[op.d] # 0 /\ Users(op.d) = {} /\ op.p \in Known THEN {op.d} ELSE {}
            [] op.op \in {"stop", "send", "req", "recv", "l2ioctl"} -> IF cn[op.c].live THEN {cn[op.c].d} ELSE {}
            [] OTHER -> {}
InOther == pass # <<>> /\ (pass.k = "race" => pass.cur >= 0)
PassAct(d, rc, istx) ==
  /\ \E c \in Cid : cn[c].d = d /\ (MayServe(c, pass.t) \/ (d \in pass.seen /\ Eligible(c)))
        /\ (Busy(c) => pass.k = "race" /\ acted = {})
  /\ pass' = [pass EXCEPT !.seen = @ \cup {d}, !.cur = d, !.ok = IF istx /\ rc = 0 THEN @ \cup {d} ELSE @]
  /\ UNCHANGED <<fl, mask, lk, hw, cn, done, nt, op, hwe, acted, txok, nest, clean>>
Act(d, rc, th, istx) ==
  IF pass # <<>> /\ ((pass.k = "race" /\ th = 1) \/ (pass.k = "nest" /\ nest = 1) \/ (pass.k = "op" /\ nest = 0))
  THEN PassAct(d, rc, istx)
  ELSE /\ th = 0 /\ nest = 0 /\ ~Idle /\ d \in OwnDev
       /\ acted' = acted \cup {d} /\ txok' = (txok \/ (istx /\ rc = 0))
       /\ UNCHANGED <<fl, mask, lk, hw, cn, done, nt, op, hwe, pass, nest, clean>>
\* a tick delivered while a driver call is in progress
NestBegin(t) ==
  /\ nest' = nest + 1
  /\ pass' = (IF pass = <<>> THEN NewPass("nest", t) ELSE pass)
  /\ UNCHANGED <<fl, mask, lk, hw, cn, done, nt, op, hwe, acted, txok, clean>>
NestEnd(t) ==
  /\ nest > 0 /\ nest' = nest - 1
  /\ IF pass.k = "nest" /\ nest = 1 THEN cn' = AfterPass(t) /\ pass' = <<>> ELSE UNCHANGED <<cn, pass>>
  /\ UNCHANGED <<fl, mask, lk, hw, done, nt, op, hwe, acted, txok, clean>>
\* a pass running in the timer's own thread
RaceBegin(t) ==
  /\ Idle /\ NoPass /\ pass' = NewPass("race", t)
  /\ UNCHANGED <<fl, mask, lk, hw, cn, done, nt, op, hwe, acted, txok, nest, clean>>
RaceEnd(t) ==
  /\ pass # <<>> /\ pass.k = "race" /\ Served(pass.t, t, {c \in Cid : Busy(c)})
  /\ cn' = AfterPass(t) /\ pass' = <<>>
  /\ UNCHANGED <<fl, mask, lk, hw, done, nt, op, hwe, acted, txok, nest, clean>>
Timer(delta) ==
  /\ ~Idle /\ nt' = nt + delta /\ nt' \in {0, 1}
  /\ IF delta = 1 THEN op.op = "ini" ELSE op.op = "end"
  /\ UNCHANGED <<fl, mask, lk, hw, cn, done, op, hwe, acted, txok, pass, nest, clean>>
-----------------------------------------------------------------------------
Opened == hwe # <<>> /\ hwe[1] = <<"open", 0>>
NoHw == hwe = <<>>
RetOpen(r) ==
  /\ op.op = "l2open" /\ UNCHANGED <<cn, done, nt, clean>> /\ acted = {}
  /\ IF lk[op.d] # 0 THEN NoHw /\ r.rc = (IF lk[op.d] = op.p THEN 0 ELSE E_PROTONS) /\ UNCHANGED lk
     ELSE IF ~HasBit(mask[op.d], op.p) THEN NoHw /\ r.rc = E_PROTONS /\ UNCHANGED lk
     ELSE /\ hwe # <<>>
          /\ r.rc = 0 <=> (Opened /\ op.nomem = 0)
          /\ r.rc <= 0
          /\ lk' = [lk EXCEPT ![op.d] = IF r.rc = 0 THEN op.p ELSE 0]
          /\ hw[op.d] = (r.rc = 0)
RetClose(r) ==
  /\ op.op = "l2close" /\ UNCHANGED <<cn, done, nt, clean>> /\ acted = {}
  /\ IF Users(op.d) # {} THEN r.rc = E_GENERAL /\ NoHw /\ UNCHANGED lk
     ELSE r.rc = 0 /\ ~hw[op.d] /\ lk' = [lk EXCEPT ![op.d] = 0] /\ (lk[op.d] = 0 => NoHw)
RetStart(r, t) ==
  /\ op.op = "start" /\ NoHw /\ UNCHANGED <<lk, done, nt, clean>>
  /\ IF OwnDev = {} THEN r.rc = E_GENERAL /\ acted = {} /\ UNCHANGED cn
     ELSE IF op.x = 1 THEN r.rc = 0 /\ cn' = [cn EXCEPT ![op.c] = [live |-> TRUE, d |-> op.d, prot |-> op.p, tlo |-> t - 2, thi |-> t, mon |-> (op.fl & 15) = 3]]
     ELSE r.rc < 0 /\ UNCHANGED cn
RetStop(r) ==
  /\ op.op = "stop" /\ NoHw /\ UNCHANGED <<lk, done, nt, clean>>
  /\ IF cn[op.c].live THEN r.rc = 0 ELSE r.rc = 1
  /\ cn' = [cn EXCEPT ![op.c] = Dead]
Ok(r) == IF op.op = "req" /\ Has(r, "null") THEN r.null = 0 ELSE r.rc = 0
RetTraffic(r, t) ==
  /\ op.op \in {"send", "req", "recv"} /\ NoHw /\ UNCHANGED <<lk, done, nt, clean>>
  /\ IF ~cn[op.c].live THEN UNCHANGED cn
     ELSE cn' = [cn EXCEPT ![op.c] = IF Ok(r) THEN [@ EXCEPT !.tlo = t - 2, !.thi = t]
                                     ELSE IF txok THEN [@ EXCEPT !.thi = t] ELSE @]
RetTick(r, t) ==
  /\ TickOp /\ NoHw /\ UNCHANGED <<lk, done, nt, clean>>
  /\ IF pass.k = "op" THEN Served(pass.t, t, {}) /\ cn' = AfterPass(t) ELSE UNCHANGED cn
Live0 == \A d \in Dev : lk[d] = 0
RetOther(r, t) ==
  /\ op.op \in {"adv", "l2ioctl", "mark", "live", "end", "ini", "l1close"} /\ NoHw
  /\ done' = CASE op.op = "end" -> TRUE [] op.op = "ini" -> FALSE [] OTHER -> done
  /\ (op.op = "end" => r.rc = 0 /\ nt = 0)
  /\ (op.op = "ini" => r.rc = 0 /\ nt = 1)
  /\ (op.op = "live" /\ clean /\ Live0 => r.v = 0)
  /\ clean' = (IF op.op = "mark" THEN Live0 ELSE clean)
  /\ IF op.op = "ini" /\ done THEN cn' = [c \in Cid |-> Dead] /\ lk' = [d \in Dev |-> 0] ELSE UNCHANGED <<cn, lk>>
  /\ UNCHANGED nt
Ret(r, t) ==
  /\ ~Idle /\ nest = 0
  /\ RetOpen(r) \/ RetClose(r) \/ RetStart(r, t) \/ RetStop(r) \/ RetTraffic(r, t) \/ RetTick(r, t) \/ RetOther(r, t)
  /\ op' = <<>> /\ hwe' = <<>>
  /\ pass' = (IF pass # <<>> /\ pass.k = "op" THEN <<>> ELSE pass)
  /\ UNCHANGED <<fl, mask, hw, acted, txok, nest>>
-----------------------------------------------------------------------------
(* invariants of the abstract system *)
OneUser == \A d \in Dev : Cardinality(Users(d)) <= 1
UsersHaveLink == \A c \in Cid : cn[c].live => lk[cn[c].d] # 0
HwMatches == Idle => \A d \in Dev : hw[d] => (lk[d] # 0 \/ nt = 0 \/ done)
=============================================================================
