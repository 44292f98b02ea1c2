--------------------------------- MODULE L1 ---------------------------------
(* Byte transport over a possibly half-duplex line.  A send call puts the    *)
(* given bytes on the line either as one block or byte by byte with a        *)
(* minimum inter-byte time; on half-duplex lines what was transmitted comes  *)
(* back as an echo which is consumed and compared.                           *)
EXTENDS VBytes
VARIABLES fl, op, ph, pos, last, faulty, rxd
vars == <<fl, op, ph, pos, last, faulty, rxd>>
Init0(f) == fl = f /\ op = <<>> /\ ph = "idle" /\ pos = 0 /\ last = 0 /\ faulty = FALSE /\ rxd = <<>>
MaxBlk == 1024
Half == HasBit(fl, F_HALFDUPLEX)
Block(p4) == \/ HasBit(fl, F_L2FRAME) \/ HasBit(fl, F_P4WAIT)
             \/ p4 = 0 /\ (~Half \/ HasBit(fl, F_BLOCKDUPLEX))
EchoBlock == Block(op.p4) /\ HasBit(fl, F_BLOCKDUPLEX)
EchoByte == ~Block(op.p4) /\ Half
Call(c) ==
  /\ ph = "idle" /\ op' = c /\ pos' = 0 /\ last' = 0 /\ faulty' = FALSE /\ rxd' = <<>>
  /\ ph' = CASE c.op = "l1send" -> (IF Len(c.b) > MaxBlk \/ Len(c.b) = 0 THEN "refuse" ELSE "send")
             [] c.op = "l1recv" -> (IF c.n = 0 THEN "refuse" ELSE "recv")
             [] OTHER -> "other"
  /\ UNCHANGED fl
\* bytes given to the driver at time t; rc: what the driver said
Tx(b, rc, t) ==
  /\ ph = "send"
  /\ IF Block(op.p4) THEN pos = 0 /\ b = op.b
     ELSE b = <<op.b[pos + 1]>> /\ (pos > 0 => t - last >= op.p4)
  /\ ph' = IF rc # 0 THEN "failed"
           ELSE IF EchoBlock \/ EchoByte THEN "echo"
           ELSE IF pos + Len(b) = Len(op.b) THEN "sent" ELSE "send"
  /\ pos' = pos + Len(b) /\ last' = t
  /\ UNCHANGED <<fl, op, faulty, rxd>>
Sent == IF Block(op.p4) THEN op.b ELSE <<op.b[pos]>>
\* the echo read back
Echo(b) ==
  /\ ph = "echo"
  /\ ph' = IF b # Sent THEN "failed" ELSE IF pos = Len(op.b) THEN "sent" ELSE "send"
  /\ UNCHANGED <<fl, op, pos, last, faulty, rxd>>
Rx(b, err) == ph = "recv" /\ ph' = "rxd" /\ rxd' = (IF err # 0 THEN <<err>> ELSE <<0, b>>) /\ UNCHANGED <<fl, op, pos, last, faulty>>
EchoMissing == ph = "echo" /\ ph' = "failed" /\ UNCHANGED <<fl, op, pos, last, faulty, rxd>>
Ret(r, t) ==
  /\ \/ ph = "sent" /\ r.rc = 0 /\ (~Block(op.p4) => t - last >= op.p4)
     \/ ph \in {"failed", "refuse"} /\ r.rc < 0
     \/ ph = "rxd" /\ IF rxd[1] # 0 THEN r.rc = rxd[1]
                      ELSE IF rxd[2] = <<>> THEN r.rc = E_TIMEOUT ELSE r.rc = Len(rxd[2]) /\ r.b = rxd[2]
     \/ ph = "other"
  /\ ph' = "idle" /\ op' = <<>> /\ UNCHANGED <<fl, pos, last, faulty, rxd>>
=============================================================================
