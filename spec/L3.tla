--------------------------------- MODULE L3 ---------------------------------
(* Application-layer sessions on top of link connections: start, stop,        *)
(* routing, upkeep (C17) and SAE J1979 behaviour (C18).  A link connection is *)
(* reduced to its kind: j (J1850, framed), k (ISO14230, framed, keeps the     *)
(* session alive itself), r (raw, unframed).                                  *)
EXTENDS VBytes, J1979Len
VARIABLES conns, sess, order, op, ph, turn, t0, todo, cur, bg
vars == <<conns, sess, order, op, ph, turn, t0, todo, cur, bg>>
\* conns: connection number + 1 -> [d, kind, tgt, src, kb, ka]
\* sess: session number + 1 -> <<>> or [c, proto, lo, hi, src, rxb, q]
Init0(cs) == conns = cs /\ sess = [i \in 1..8 |-> <<>>] /\ order = <<>> /\ op = <<>> /\ ph = "idle" /\ turn = <<>> /\ t0 = 0 /\ todo = <<>> /\ cur = 0 /\ bg = <<>>
Live(h) == sess[h] # <<>>
Frame(cn, src, dest, pay) ==
  CASE cn.kind = "j" -> <<IF cn.proto = 8 THEN 97 ELSE 104, cn.tgt, cn.src>> \o pay
    [] cn.kind = "k" -> <<128 + Len(pay), IF dest = 0 THEN cn.tgt ELSE dest, IF src = 0 THEN cn.src ELSE src>> \o pay
    [] OTHER -> pay
Names == {"SAEJ1979", "VAG", "ISO14230"}
\* what a connection of kind k makes of the bursts received
HasErr == \E i \in DOMAIN turn : turn[i].err # 0
Good == SelectSeq(turn, LAMBDA x : x.err = 0)
Bytes == FlattenB([i \in DOMAIN Good |-> Good[i].b])
Msgs(cn) ==
  IF cn.kind = "r" THEN IF Bytes = <<>> THEN <<>> ELSE <<[b |-> Bytes, src |-> 0, dest |-> 0]>>
  ELSE IF HasErr THEN <<>>
  ELSE [i \in DOMAIN turn |-> [b |-> Drop(turn[i].b, 3), dest |-> turn[i].b[2], src |-> turn[i].b[3]]]
SameMsgs(rs, ms) == Len(rs) = Len(ms) /\ \A i \in DOMAIN ms : rs[i].b = ms[i].b /\ rs[i].src = ms[i].src /\ rs[i].dest = ms[i].dest
LastIn == IF turn = <<>> THEN t0 ELSE turn[Len(turn)].t
-----------------------------------------------------------------------------
(* what the pending operation puts on the line, and where *)
C(h) == conns[sess[h].c]
J(h) == sess[h].proto = "SAEJ1979"
OutSrc == IF op.op = "l3send" /\ J(op.h + 1) /\ op.msrc = 0 THEN 241 ELSE op.msrc
ProbeSrc(h) == IF sess[h].src = 0 THEN 241 ELSE sess[h].src
May(h, t) == J(h) /\ ~C(h).ka /\ t - sess[h].lo >= 3499
Must(h, t) == May(h, t) /\ t - sess[h].hi >= 3501
Touch(h, a, b) == [sess EXCEPT ![h].lo = a, ![h].hi = b]
Keep == UNCHANGED <<conns, order, bg>>
Call(c, t) ==
  /\ ph = "idle" /\ bg = <<>> /\ op' = c /\ turn' = <<>> /\ t0' = t /\ cur' = 0 /\ Keep /\ UNCHANGED sess
  /\ todo' = IF c.op = "l3timer" THEN SelectSeq(order, LAMBDA h : May(h, t)) ELSE <<>>
  /\ ph' = CASE c.op = "l3start" -> IF c.up = "SAEJ1979" THEN "tx" ELSE "done"
            [] c.op \in {"l3send", "l3req"} /\ sess[c.h + 1] # <<>> -> "tx"
            [] c.op = "l3recv" /\ sess[c.h + 1] # <<>> -> "rx"
            [] c.op = "l3timer" -> "timer"
            [] OTHER -> "other"
Out ==
  CASE op.op = "l3start" -> [c |-> op.c + 1, b |-> Frame(conns[op.c + 1], 241, 0, <<1, 0>>)]
    [] OTHER -> [c |-> sess[op.h + 1].c, b |-> Frame(C(op.h + 1), OutSrc, op.mdest, op.b)]
\* a probe's end: an answer of any kind counts as traffic
ProbeDone(t) == IF cur = 0 THEN sess ELSE IF Msgs(C(cur)) # <<>> THEN Touch(cur, LastIn, t) ELSE sess
\* raw connections put one byte at a time on the line: the trace merges them
Tx(d, b, rc, t, tend) ==
  /\ Keep /\ UNCHANGED op
  /\ IF ph \in {"timer"} THEN
        \E i \in DOMAIN todo : LET h == todo[i] IN
          /\ h # cur /\ \A k \in 1..(i - 1) : ~Must(todo[k], op.t) \/ todo[k] = cur
          /\ d = C(h).d /\ LET o == Frame(C(h), ProbeSrc(h), 0, <<1, 0>>) IN IF rc = 0 THEN b = o ELSE IsPrefix(b, o)
          /\ sess' = ProbeDone(t) /\ todo' = SubSeq(todo, i + 1, Len(todo)) /\ cur' = IF rc = 0 THEN h ELSE 0
          /\ ph' = ph /\ turn' = <<>> /\ t0' = tend
     ELSE /\ ph = "tx" /\ d = conns[Out.c].d /\ (IF rc = 0 THEN b = Out.b ELSE IsPrefix(b, Out.b))
          /\ ph' = IF rc # 0 THEN "txfail" ELSE IF op.op = "l3send" THEN "sent" ELSE "rx"
          /\ turn' = <<>> /\ t0' = tend /\ UNCHANGED <<sess, todo, cur>>
RxConn == CASE ph = "timer" -> IF cur = 0 THEN 0 ELSE sess[cur].c
            [] op.op = "l3start" -> op.c + 1
            [] OTHER -> sess[op.h + 1].c
In(d, b, err, t) ==
  /\ ph \in {"rx", "timer"} /\ RxConn # 0 /\ d = conns[RxConn].d
  /\ turn' = Append(turn, [t |-> t, b |-> b, err |-> err])
  /\ Keep /\ UNCHANGED <<sess, op, ph, t0, todo, cur>>
-----------------------------------------------------------------------------
Fin(s, o) == sess' = s /\ order' = o /\ op' = <<>> /\ ph' = "idle" /\ turn' = <<>> /\ todo' = <<>> /\ cur' = 0 /\ UNCHANGED <<conns, t0, bg>>
New(proto, t) == [c |-> op.c + 1, proto |-> proto, lo |-> t0, hi |-> t, src |-> 0, rxb |-> <<>>, q |-> <<>>]
Started(t) == Fin([sess EXCEPT ![op.h + 1] = [New(op.up, t) EXCEPT !.lo = LastIn]], <<op.h + 1>> \o order)
RetStart(r, t) ==
  /\ op.op = "l3start"
  /\ IF op.up \notin Names THEN ph = "done" /\ r.null = 1 /\ Fin(sess, order)
     ELSE IF op.up = "VAG" /\ conns[op.c + 1].kb # <<1, 138>> THEN ph = "done" /\ r.null = 1 /\ r.rc = E_WRONGKB /\ Fin(sess, order)
     ELSE IF op.up # "SAEJ1979" THEN ph = "done" /\ r.null = 0 /\ Started(t)
     ELSE LET ms == Msgs(conns[op.c + 1])  pos == {i \in DOMAIN ms : ms[i].b # <<>> /\ Take(ms[i].b, 1) = <<65>>} IN
          CASE ph = "txfail" -> r.null = 1 /\ r.rc <= 0 /\ Fin(sess, order)
            [] ph = "rx" -> IF 1 \in pos THEN r.null = 0 /\ Started(t)
                            ELSE IF r.null = 1 THEN r.rc <= 0 /\ Fin(sess, order) ELSE pos # {} /\ Started(t)
            [] OTHER -> FALSE
RetSend(r, t) ==
  /\ op.op = "l3send"
  /\ LET h == op.h + 1
         s1 == IF J(h) /\ sess[h].src = 0 THEN [sess EXCEPT ![h].src = OutSrc] ELSE sess IN
     CASE ph = "sent" -> r.rc = 0 /\ Fin([s1 EXCEPT ![h].lo = t0, ![h].hi = t], order)
       [] ph = "txfail" -> r.rc < 0 /\ Fin(s1, order)
       [] OTHER -> FALSE
RetReq(r, t) ==
  /\ op.op = "l3req"
  /\ LET h == op.h + 1  ms == Msgs(C(h)) IN
     CASE ph = "rx" -> IF ms # <<>> THEN r.null = 0 /\ SameMsgs(r.m, ms) /\ Fin(Touch(h, LastIn, t), order)
                       ELSE r.null = 1 /\ r.err < 0 /\ (~HasErr => r.err = E_TIMEOUT) /\ Fin(sess, order)
       [] ph = "txfail" -> r.null = 1 /\ r.err < 0 /\ Fin(sess, order)
       [] OTHER -> FALSE
RetRecv(r, t) ==
  /\ op.op = "l3recv" /\ ph = "rx"
  /\ LET h == op.h + 1  ms == Msgs(C(h))  framed == C(h).kind # "r" IN
     IF sess[h].proto = "ISO14230" /\ ~framed THEN r.rc = E_PROTONS /\ r.cbs = <<>> /\ turn = <<>> /\ Fin(sess, order)
     ELSE IF framed \/ sess[h].proto = "VAG" THEN
        IF ms # <<>> THEN r.rc = 0 /\ Len(r.cbs) = 1 /\ r.cbs[1].h = op.cbh /\ SameMsgs(r.cbs[1].m, ms) /\ Fin(Touch(h, LastIn, t), order)
        ELSE r.rc < 0 /\ r.cbs = <<>> /\ (~HasErr => r.rc = E_TIMEOUT /\ t - t0 >= op.w - 1) /\ Fin(sess, order)
     ELSE LET sp == Split(Take(sess[h].rxb \o Bytes, 1024))  q == sess[h].q \o sp.msgs IN
        IF q # <<>> /\ ~(HasErr /\ r.rc < 0)
        THEN /\ r.rc = 0 /\ Len(r.cbs) = 1 /\ r.cbs[1].h = op.cbh /\ Len(r.cbs[1].m) = 1 /\ r.cbs[1].m[1].b = q[1]
             /\ Fin([sess EXCEPT ![h].rxb = sp.rest, ![h].q = Tail(q), ![h].lo = LastIn, ![h].hi = t], order)
        ELSE /\ r.cbs = <<>>
             /\ IF HasErr THEN r.rc < 0 ELSE t - t0 >= op.w - 1 /\ r.rc \in (IF Bytes = <<>> THEN {E_TIMEOUT} ELSE {E_TIMEOUT, 0})
             /\ Fin([sess EXCEPT ![h].rxb = IF HasErr THEN Take(@ \o Bytes, 1024) ELSE sp.rest, ![h].lo = IF r.rc = 0 THEN LastIn ELSE @, ![h].hi = IF r.rc = 0 THEN t ELSE @], order)
RetStop(r) == op.op = "l3stop" /\ ph = "other" /\ IF sess[op.h + 1] = <<>> THEN r.rc = 1 /\ Fin(sess, order)
                 ELSE r.rc = 0 /\ Fin([sess EXCEPT ![op.h + 1] = <<>>], SelectSeq(order, LAMBDA x : x # op.h + 1))
RetTimer(t) == op.op = "l3timer" /\ ph = "timer" /\ (\A i \in DOMAIN todo : ~Must(todo[i], op.t)) /\ Fin(ProbeDone(t), order)
\* a round of upkeep in the timer's own thread, during which a session is stopped: nothing is done for a session once its stop has returned
BgCall(c) == ph = "timer" /\ bg = <<>> /\ c.op = "l3stop" /\ bg' = c /\ UNCHANGED <<conns, sess, order, op, ph, turn, t0, todo, cur>>
BgRet(r) ==
  /\ bg # <<>> /\ bg' = <<>> /\ ph \in {"timer", "idle"} /\ UNCHANGED <<conns, op, ph, turn, t0>>
  /\ LET h == bg.h + 1 IN
     IF sess[h] = <<>> THEN r.rc = 1 /\ UNCHANGED <<sess, order, todo, cur>>
     ELSE r.rc = 0 /\ sess' = [sess EXCEPT ![h] = <<>>] /\ order' = SelectSeq(order, LAMBDA x : x # h) /\ todo' = SelectSeq(todo, LAMBDA x : x # h) /\ cur' = IF cur = h THEN 0 ELSE cur
RetOther(r) == ph = "other" /\ op.op # "l3stop" /\ (op.op = "live" => r.v = 0) /\ Fin(sess, order)
Ret(r, t) == op # <<>> /\ (RetStart(r, t) \/ RetSend(r, t) \/ RetReq(r, t) \/ RetRecv(r, t) \/ RetStop(r) \/ (bg = <<>> /\ RetTimer(t)) \/ RetOther(r))
=============================================================================
