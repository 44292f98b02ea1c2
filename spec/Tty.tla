-------------------------------- MODULE Tty --------------------------------
(* The serial port layer: what each operation does to a serial device seen    *)
(* through its file descriptor. The device's settings, control lines, break   *)
(* and buffers are reported with each result; bytes arrive at known instants.  *)
EXTENDS VBytes
VARIABLES op, u0, H,   \* operation in progress, when it began (microseconds), what happened during it
          dv,          \* the device as last reported
          orig,        \* ... as it was before the port was opened
          cf,          \* what the device is capable of, and the directory it is found in
          Q, got,      \* bytes arriving (instant, byte), bytes handed over during the operation
          opn, bt,     \* the port is open; transmission time of one byte (0: nothing set up)
          nomem        \* an allocation is going to fail
vars == <<op, u0, H, dv, orig, cf, Q, got, opn, bt, nomem>>
Init0 == op = <<>> /\ u0 = 0 /\ H = <<>> /\ dv = <<>> /\ orig = <<>> /\ cf = [base |-> 0, ls |-> <<>>] /\ Q = <<>> /\ got = <<>> /\ opn = FALSE /\ bt = 0 /\ nomem = FALSE
Tol == 2500
-----------------------------------------------------------------------------
Kind(k) == SelectSeq(H, LAMBDA e : e.e = k)
Failed(S) == \E i \in DOMAIN H : IF H[i].e = "fail" THEN H[i].k \in S ELSE FALSE
AnyFailedBut(S) == \E i \in DOMAIN H : IF H[i].e = "fail" THEN H[i].k \notin S ELSE FALSE
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s).b \o Cat(Tail(s))
Wrote == Cat(Kind("wr"))
RECURSIVE Ins(_, _)
Ins(q, a) == IF q = <<>> THEN <<a>> ELSE IF q[Len(q)][1] <= a[1] THEN Append(q, a) ELSE Ins(SubSeq(q, 1, Len(q) - 1), a) \o <<q[Len(q)]>>
Before(u) == {i \in DOMAIN Q : Q[i][1] <= u}
Settings(r) == <<r.spd, r.db, r.sb, r.par, r.raw>>
Lines(m) == (m \div 2) % 4                    \* DTR and RTS
Undisturbed(r) == Settings(r) = Settings(dv) /\ r.mdm = dv.mdm
Gross(db, sb, par) == 1 + db + sb + (IF par = 3 THEN 0 ELSE 1)
ByteTime(r) == (Gross(r.db, r.sb, r.par) * 1000000) \div r.spd
Achieved(v) == IF cf.base = 0 THEN v ELSE cf.base \div ((cf.base + v \div 2) \div v)
-----------------------------------------------------------------------------
(* opening: the port as found is kept for later; raw 8-bit transparent input and output *)
OpenOk(r) ==
  LET no == AnyFailedBut({"gser", "sser"}) \/ nomem \/ (\E i \in DOMAIN H : IF H[i].e = "opn" THEN H[i].ok = 0 ELSE FALSE) IN
  IF no
  THEN r.ok = 0 /\ r.fds = 0 /\ r.mdm = dv.mdm /\ (~Failed({"tcset"}) => r.same = 1)
  ELSE r.ok = 1 /\ r.fds = 1 /\ Len(Kind("opn")) = 1 /\ Kind("opn")[1].n = op.n /\ r.raw = 1 /\ r.mdm = dv.mdm
SetOk(r) ==
  IF op.db \notin 5..8 \/ op.sb \notin 1..2 \/ op.par \notin 1..3 THEN r.rc < 0 /\ Undisturbed(r)
  ELSE IF Failed({"tcset", "tcget"}) THEN r.rc < 0 /\ r.mdm = dv.mdm
  ELSE r.rc = 0 /\ Settings(r) = <<Achieved(op.v), op.db, op.sb, op.par, 1>> /\ r.mdm = dv.mdm
CtlOk(r) ==
  /\ Settings(r) = Settings(dv)
  /\ IF Failed({"mget", "mset"}) THEN r.rc < 0 /\ r.mdm = dv.mdm
     ELSE r.rc = 0 /\ r.mdm = dv.mdm - 2 * Lines(dv.mdm) + 2 * op.dtr + 4 * op.rts
(* what is written goes out once, in order; the call returns when it has been transmitted *)
WriteOk(r) ==
  LET n == Len(Wrote) need == Len(op.b) * bt IN
  /\ Undisturbed(r) /\ n <= Len(op.b) /\ Wrote = Take(op.b, n)
  /\ IF Failed({"write"}) THEN r.rc < 0
     ELSE /\ r.rc = n
          /\ n < Len(op.b) => r.u - u0 >= need
          /\ Failed({"drain"}) \/ r.busy = 0
          /\ bt # 0 => r.u - u0 <= 2 * need + Len(op.b) * ByteTime(dv) + dv.busy + 40000
(* reading: all that was asked for, or what has arrived by the deadline *)
ReadOk(r) ==
  LET dl == u0 + op.w * 1000 IN
  /\ Undisturbed(r)
  /\ IF Failed({"read", "select"}) THEN r.rc < 0
     ELSE IF Failed({"eof"}) THEN (IF got # <<>> THEN r.rc = Len(got) /\ r.b = got ELSE r.rc < 0)
     ELSE /\ r.u <= dl + Tol
          /\ IF r.rc > 0 THEN r.b = got /\ r.rc = Len(got) /\ r.rc <= op.n /\ (r.rc < op.n => r.u >= dl - Tol /\ Before(dl - Tol) = {})
             ELSE r.rc = E_TIMEOUT /\ got = <<>> /\ r.u >= dl - Tol /\ Before(dl - Tol) = {}
FlushOk(r) ==
  /\ Undisturbed(r) /\ r.rc = 0 /\ r.u - u0 <= 30000 + Tol
  /\ Failed({"read", "select", "eof"}) \/ Before(r.u - Tol) = {}
(* a break: after everything written has left, for the time asked for *)
BreakOk(r) ==
  LET B == Kind("brk") IN
  /\ Undisturbed(r) /\ Wrote = <<>>
  /\ IF Failed({"brkon", "brkoff"}) THEN r.rc < 0 /\ (Failed({"brkon"}) => B = <<>>)
     ELSE /\ r.rc = 0 /\ Len(B) = 2 /\ r.brk = 0
          /\ IF Len(B) = 2 THEN /\ B[1].on = 1 /\ B[2].on = 0 /\ (Failed({"drain"}) \/ B[1].busy = 0)
                                /\ B[2].u - B[1].u >= op.ms * 1000 /\ B[2].u - B[1].u <= op.ms * 1000 + Tol ELSE TRUE
(* the 25 ms pattern: a zero byte at 360 baud; returns ms after it began, at 10400 baud *)
FastOk(r) ==
  LET W == Kind("wr") IN
  IF op.ms < 25 THEN r.rc < 0 /\ Undisturbed(r) /\ W = <<>>
  ELSE IF r.rc = 0
  THEN /\ Len(W) = 1 /\ r.mdm = dv.mdm /\ Settings(r) = <<Achieved(10400), 8, 1, 3, 1>>
       /\ IF Len(W) = 1 THEN /\ W[1].b = <<0>> /\ <<W[1].spd, W[1].db, W[1].sb, W[1].par>> = <<Achieved(360), 8, 1, 3>>
                             /\ got # <<>>
                             /\ r.u - W[1].u >= op.ms * 1000 - 100 /\ r.u - W[1].u <= MaxI(op.ms * 1000, LET X == Kind("rdv") IN X[Len(X)].u - W[1].u) + Tol ELSE TRUE
  ELSE r.rc < 0 /\ (got = <<>> \/ H # <<>>) /\ (AnyFailedBut({"gser", "sser"}) \/ got = <<>>)
CloseOk(r) ==
  /\ Len(Kind("cls")) = 1 /\ r.fds = 0
  /\ Failed({"tcset", "sser"}) \/ r.same = 1
  /\ Failed({"mset"}) \/ r.mdm = orig.mdm
-----------------------------------------------------------------------------
(* the ports there are: serial devices in /dev and /dev/usb that are terminals *)
IsPort(e, d) == e.d = d /\ e.k = "t" /\ (IF d = 0 THEN e.p \in {"ttyS", "ttyUSB", "ttyACM"} ELSE e.p = "ttyUSB")
Ports(d) == LET s == SelectSeq(cf.ls, LAMBDA e : IsPort(e, d)) IN [i \in DOMAIN s |-> s[i].path]
PortsOk(r) ==
  IF nomem /\ r.null = 1 THEN r.n = 0 /\ r.fds = 0 /\ r.dirs = 0
  ELSE r.l = Ports(0) \o Ports(1) /\ r.n = Len(r.l) /\ r.fds = (IF opn THEN 1 ELSE 0) /\ r.dirs = 0
-----------------------------------------------------------------------------
Call(c, u) ==
  /\ op = <<>> /\ op' = c /\ u0' = u /\ H' = <<>> /\ got' = <<>>
  /\ cf' = (IF c.op = "fdev" THEN [cf EXCEPT !.base = c.base] ELSE IF c.op = "fls" THEN [cf EXCEPT !.ls = @ \o c.ls] ELSE cf)
  /\ nomem' = (c.nomem = 1)
  /\ UNCHANGED <<dv, orig, Q, opn, bt>>
\* something the code did, or that happened to it
Did(e) ==
  /\ op # <<>> /\ H' = Append(H, e) /\ UNCHANGED <<op, u0, dv, orig, cf, opn, bt, nomem>>
  /\ CASE e.e = "arr" -> Q' = Ins(Q, <<e.u, e.b>>) /\ UNCHANGED got
       [] e.e = "rdv" -> e.k <= Len(Q) /\ got' = got \o [i \in 1..e.k |-> Q[i][2]] /\ Q' = Drop(Q, e.k)
       [] e.e = "flsh" -> Q' = SelectSeq(Q, LAMBDA a : a[1] > e.u) /\ UNCHANGED got
       [] OTHER -> UNCHANGED <<Q, got>>
Judge(r) ==
  CASE op.op = "yopen" -> (IF opn THEN TRUE ELSE OpenOk(r))
    [] op.op = "yports" -> PortsOk(r)
    [] op.op = "live" -> r.v = 0
    [] op.op \in {"fdev", "ffail", "fwr", "frd", "fsel", "frx", "fls", "other"} -> TRUE
    [] ~opn -> r.rc = 1
    [] op.op = "yset" -> SetOk(r)
    [] op.op = "yctl" -> CtlOk(r)
    [] op.op = "ywrite" -> WriteOk(r)
    [] op.op = "yread" -> ReadOk(r)
    [] op.op = "yflush" -> FlushOk(r)
    [] op.op = "ybrk" -> BreakOk(r)
    [] op.op = "yfbrk" -> FastOk(r)
    [] op.op = "yclose" -> CloseOk(r)
Ret(r) ==
  /\ op # <<>> /\ Judge(r) = TRUE
  /\ (opn /\ op.op # "yclose" => (IF Has(r, "fds") THEN r.fds = 1 ELSE TRUE))
  /\ opn' = (IF op.op = "yopen" THEN r.ok = 1 ELSE IF op.op = "yclose" THEN FALSE ELSE opn)
  /\ orig' = (IF op.op = "yopen" /\ ~opn THEN dv ELSE orig)
  /\ dv' = (IF Has(r, "spd") THEN r ELSE dv)
  /\ bt' = (IF op.op = "yopen" THEN 1000 ELSE IF op.op \in {"yset", "yfbrk"} THEN (IF r.rc = 0 THEN ByteTime(r) ELSE IF H # <<>> THEN 0 ELSE bt) ELSE bt)
  /\ op' = <<>> /\ UNCHANGED <<u0, H, cf, Q, got, nomem>>
=============================================================================
