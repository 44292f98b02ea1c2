------------------------------- MODULE CarSim -------------------------------
(* The car simulator interface.  A database is a record:                      *)
(*   cfg  set of configuration words                                          *)
(*   ent  sequence of [rq: sequence of bytes or -1 (matches anything),        *)
(*                     rps: sequence of responses], a response being a        *)
(*        sequence of elements [k, v]: "h" byte v, "r" request byte v,        *)
(*        "p" request byte v plus one, "c" checksum, "s" sine, "w" sawtooth   *)
EXTENDS VBytes
VARIABLES use, open, req, queue, op
vars == <<use, open, req, queue, op>>
(* use: the database chosen; open: 0 or the number of the database in use;    *)
(* queue: <<>> or <<database, entry, next response>>                          *)
Init0 == use = 0 /\ open = 0 /\ req = <<>> /\ queue = <<>> /\ op = <<>>
MaxReq == 260
Protos == [P_9141 |-> 1, P_14230 |-> 2, P_J1850V |-> 4, P_J1850P |-> 8, P_CAN |-> 16, P_RAW |-> 128]
OnlyProto(d) == LET s == SelectSeq(d.cfg, LAMBDA w : w \in DOMAIN Protos) IN IF s = <<>> THEN 0 ELSE Protos[s[Len(s)]]
Named(d, w) == \E i \in DOMAIN d.cfg : d.cfg[i] = w
\* capabilities: always slow, fast, prefers fast, keeps P4, own speed, no tty
Flags(d) ==
  LET bits == {1, 2, 8, F_P4WAIT, F_AUTOSPEED, F_NOTTY}
        \cup (IF Named(d, "NOL2CKSUM") \/ Named(d, "DATAONLY") THEN {F_L2CKSUM, F_STRIPCK, F_L2FRAME} ELSE {})
        \cup (IF Named(d, "DATAONLY") THEN {F_NOHDRS, F_DATAONLY} ELSE {})
        \cup (IF Named(d, "FRAMED") THEN {F_L2FRAME} ELSE {})
        \cup (IF Named(d, "FULLINIT") THEN {F_FULLINIT} ELSE {})
  IN FoldSet(LAMBDA x, y : x + y, 0, bits)
Match(rq, b) == Len(b) >= Len(rq) /\ \A i \in DOMAIN rq : rq[i] = -1 \/ rq[i] = b[i]
Answer(d, b) ==
  LET hits == {i \in DOMAIN d.ent : Match(d.ent[i].rq, b)} IN
  IF hits = {} THEN 0 ELSE CHOOSE i \in hits : \A j \in hits : i <= j
Quarter == <<
   0, 0, 1, 2, 3, 3, 4, 5, 6, 7, 7, 8, 9, 10, 11, 11, 12, 13, 14, 15, 15, 16, 17, 18, 19,
   19, 20, 21, 22, 23, 23, 24, 25, 26, 26, 27, 28, 29, 30, 30, 31, 32, 33, 33, 34, 35, 36, 36, 37, 38,
   39, 40, 40, 41, 42, 43, 43, 44, 45, 46, 46, 47, 48, 48, 49, 50, 51, 51, 52, 53, 54, 54, 55, 56, 56,
   57, 58, 59, 59, 60, 61, 61, 62, 63, 63, 64, 65, 66, 66, 67, 68, 68, 69, 70, 70, 71, 72, 72, 73, 74,
   74, 75, 75, 76, 77, 77, 78, 79, 79, 80, 80, 81, 82, 82, 83, 83, 84, 85, 85, 86, 86, 87, 88, 88, 89,
   89, 90, 90, 91, 92, 92, 93, 93, 94, 94, 95, 95, 96, 96, 97, 97, 98, 98, 99, 99, 100, 100, 101, 101, 102,
   102, 103, 103, 104, 104, 105, 105, 105, 106, 106, 107, 107, 108, 108, 108, 109, 109, 110, 110, 110, 111, 111, 112, 112, 112,
   113, 113, 113, 114, 114, 114, 115, 115, 115, 116, 116, 116, 117, 117, 117, 118, 118, 118, 118, 119, 119, 119, 120, 120, 120,
   120, 121, 121, 121, 121, 121, 122, 122, 122, 122, 123, 123, 123, 123, 123, 123, 124, 124, 124, 124, 124, 124, 125, 125, 125,
   125, 125, 125, 125, 125, 125, 126, 126, 126, 126, 126, 126, 126, 126, 126, 126, 126, 126, 126, 126, 126, 126, 126, 126, 126,
   126>>
Abs(x) == IF x < 0 THEN -x ELSE x
SineAt(ms) == LET m == ms % 500 IN LET v == Quarter[(IF m <= 250 THEN m ELSE 500 - m) + 1] IN IF ms % 1000 < 500 THEN v ELSE -v
Signed(b) == IF b > 127 THEN b - 256 ELSE b
\* byte x may stand for element e at time ms, after the bytes in pre
Elem(e, x, pre, ms) ==
  CASE e.k = "h" -> x = e.v % 256
    [] e.k = "r" -> IF e.v \in 1..Len(req) THEN x = req[e.v] ELSE TRUE
    [] e.k = "p" -> IF e.v \in 1..Len(req) THEN x = (req[e.v] + 1) % 256 ELSE TRUE
    [] e.k = "c" -> x = Sum8(pre)
    [] e.k = "s" -> \E d \in 0..1 : Abs(Signed(x) - SineAt(ms + d)) <= 1
    [] e.k = "w" -> \E d \in 0..1 : Abs(x - (255 * ((ms + d) % 1000)) \div 1000) <= 1
Fits(rp, b, n, ms) == Len(b) = (IF Len(rp) < n THEN Len(rp) ELSE n) /\ \A i \in DOMAIN b : Elem(rp[i], b[i], SubSeq(b, 1, i - 1), ms)
-----------------------------------------------------------------------------
Call(c) == op = <<>> /\ op' = c /\ UNCHANGED <<use, open, req, queue>>
Ret(r, dbs) ==
  LET Norm(q) == IF q = <<>> THEN q ELSE IF q[2] = 0 THEN <<>> ELSE IF q[3] > Len(dbs[q[1]].ent[q[2]].rps) THEN <<>> ELSE q
      Ask(b) == req' = b /\ queue' = Norm(<<open, Answer(dbs[open], b), 1>>)
      Rp == dbs[queue[1]].ent[queue[2]].rps[queue[3]] IN
  /\ op # <<>> /\ op' = <<>>
  /\ CASE op.op = "suse" -> r.rc = 0 /\ use' = op.f /\ UNCHANGED <<open, req, queue>>
       [] op.op = "sopen" ->
            /\ UNCHANGED <<use, req>> /\ queue' = <<>>
            /\ LET d == dbs[use + 1] IN
               IF d.cfg = <<"MISSING">> THEN r.rc = E_GENERAL /\ r.opened = 0 /\ open' = 0
               ELSE IF OnlyProto(d) \notin {0, op.p} THEN r.rc = E_PROTONS /\ r.opened = 0 /\ open' = 0
               ELSE r.rc = 0 /\ r.opened = 1 /\ r.flags = Flags(d) /\ open' = use + 1
       [] op.op = "sclose" -> r.opened = 0 /\ open' = 0 /\ queue' = <<>> /\ UNCHANGED <<use, req>>
       [] op.op = "ssend" ->
            /\ UNCHANGED <<use, open>>
            /\ IF op.b = <<>> THEN r.rc = E_BADLEN /\ UNCHANGED <<req, queue>>
               ELSE IF Len(op.b) > MaxReq \/ queue # <<>> THEN r.rc = E_GENERAL /\ UNCHANGED <<req, queue>>
               ELSE r.rc = 0 /\ Ask(op.b)
       [] op.op = "srecv" ->
            /\ UNCHANGED <<use, open, req>>
            /\ IF op.n = 0 THEN r.rc = E_BADLEN /\ UNCHANGED queue
               ELSE IF queue = <<>> THEN r.rc = E_TIMEOUT /\ UNCHANGED queue
               ELSE /\ queue' = Norm(<<queue[1], queue[2], queue[3] + 1>>) /\ Fits(Rp, r.b, op.n, r.ms) = TRUE
                    /\ r.rc = (IF Rp = <<>> THEN E_TIMEOUT ELSE Len(r.b))
       [] op.op = "sinit" ->
            /\ UNCHANGED <<use, open>>
            /\ IF Named(dbs[open], "FULLINIT") THEN r.rc = 0 /\ queue' = <<>> /\ UNCHANGED req
               ELSE CASE op.type = 1 -> r.rc = 0 /\ Ask(<<0>>)
                      [] op.type = 2 -> r.rc = 0 /\ req' = <<op.addr>> /\ queue' = Norm(<<open, Answer(dbs[open], <<op.addr>>), 2>>)
                      [] OTHER -> r.rc = E_INITNS /\ queue' = <<>> /\ UNCHANGED req
       [] op.op = "sdel" -> r.files = 0 /\ UNCHANGED <<use, open, req, queue>>
       [] op.op = "live" -> r.v = 0 /\ UNCHANGED <<use, open, req, queue>>
       [] OTHER -> UNCHANGED <<use, open, req, queue>>
=============================================================================
