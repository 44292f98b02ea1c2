-------------------------------- MODULE Opts --------------------------------
(* Requests about a connection: settings go to the interface exactly when it  *)
(* has a use for them; what is known about the link is answered truthfully.   *)
EXTENDS VBytes
VARIABLES fl, mask,   \* the interface: capabilities, line protocols
          drc,        \* what its driver answers to: speed, flush, wakeup message
          cn,         \* the connection: [p, kb, phys] or <<>>
          op, hev     \* the request in progress and what reached the driver
vars == <<fl, mask, drc, cn, op, hev>>
Init0(f, m, r) == fl = f /\ mask = m /\ drc = r /\ cn = <<>> /\ op = <<>> /\ hev = <<>>
E_IOCTLNS == -6
SETSPEED == 8449
IFLUSH == 8706
SETWM == 8707
L1TYPE == 8208
L1FLAGS == 8209
L2FLAGS == 8225
L2DATA == 8227
ProtoFlags(p) == CASE p \in {3, 7, 9} -> 5 [] p = 1 -> 1 [] p = 4 -> 17 [] p = 6 -> 4 [] OTHER -> 0
NoTty == HasBit(fl, F_NOTTY)
\* the driver's part in a request: <<event, its answer>> or <<>>
Wanted ==
  CASE op.cmd = SETSPEED -> (IF NoTty \/ HasBit(fl, F_AUTOSPEED) THEN <<>> ELSE <<[e |-> "speed", v |-> op.v, db |-> 8, sb |-> 1, par |-> 3], drc[1]>>)
    [] op.cmd = IFLUSH -> (IF NoTty THEN <<>> ELSE <<[e |-> "flush"], drc[2]>>)
    [] op.cmd = SETWM -> (IF ~HasBit(fl, F_KEEPALIVE) THEN <<>> ELSE <<[e |-> "wm", b |-> op.b], drc[3]>>)
    [] op.cmd \in {L1TYPE, L1FLAGS, L2FLAGS, L2DATA} -> <<>>
    [] OTHER -> <<[e |-> "ioctl", cmd |-> op.cmd], E_IOCTLNS>>
Call(c) == op = <<>> /\ op' = c /\ hev' = <<>> /\ UNCHANGED <<fl, mask, drc, cn>>
Driver(e) ==
  /\ op # <<>> /\ hev' = Append(hev, e) /\ UNCHANGED <<fl, mask, drc, cn, op>>
  /\ op.op = "l2ioctl" => cn # <<>> /\ Wanted # <<>> /\ hev = <<>> /\ (IF Wanted # <<>> THEN \A f \in DOMAIN Wanted[1] : e[f] = Wanted[1][f] ELSE FALSE)
Known(c) == (c.phys * 65536) + (c.kb[1] * 256) + c.kb[2]
RetIoctl(r) ==
  IF cn = <<>> THEN r.rc = 1 /\ hev = <<>>
  ELSE IF Wanted # <<>> THEN Len(hev) = 1 /\ r.rc = Wanted[2]
  ELSE /\ hev = <<>> /\ r.rc = 0
       /\ CASE op.cmd = L1TYPE -> r.v = mask [] op.cmd = L1FLAGS -> r.v = fl [] op.cmd = L2FLAGS -> r.v = ProtoFlags(cn.p)
            [] op.cmd = L2DATA -> r.v = Known(cn) [] OTHER -> TRUE
Ret(r) ==
  /\ op # <<>> /\ (op.op = "l2ioctl" => RetIoctl(r)) = TRUE
  /\ cn' = (CASE op.op = "start" -> (IF r.rc = 0 THEN [p |-> op.p, kb |-> op.kb, phys |-> op.phys] ELSE <<>>)
              [] op.op = "stop" -> <<>> [] OTHER -> cn)
  /\ (op.op = "start" => r.rc = 0 /\ (IF r.rc = 0 THEN r.l2f = ProtoFlags(op.p) ELSE TRUE)) = TRUE
  /\ op' = <<>> /\ hev' = <<>> /\ UNCHANGED <<fl, mask, drc>>
=============================================================================
