------------------------------ MODULE VBytes ------------------------------
(* Byte-level helpers shared by all protocol specifications. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bitwise, SequencesExt, Json

Band(a, b) == a & b
Bor(a, b)  == a | b
Bxor(a, b) == a ^^ b
HasBit(v, bit) == (v & bit) # 0
Not8(b) == 255 - b
RECURSIVE SumTo(_, _)
SumTo(b, n) == IF n = 0 THEN 0 ELSE SumTo(b, n - 1) + b[n]
Sum8(b) == SumTo(b, Len(b)) % 256
Take(b, n) == SubSeq(b, 1, IF n < Len(b) THEN n ELSE Len(b))
Drop(b, n) == SubSeq(b, n + 1, Len(b))
RECURSIVE FlattenB(_)
FlattenB(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlattenB(Tail(ss))
Has(r, f) == f \in DOMAIN r
Get(r, f, dflt) == IF f \in DOMAIN r THEN r[f] ELSE dflt
Bit(cond, v) == IF cond THEN v ELSE 0
MaxI(a, b) == IF a > b THEN a ELSE b

\* interface capability flags (diag_l1.h)
F_HALFDUPLEX == 16
F_L2FRAME == 32
F_SLOWINIT == 64
F_L2CKSUM == 128
F_STRIPCK == 256
F_P4WAIT == 512
F_AUTOSPEED == 1024
F_NOTTY == 2048
F_BLOCKDUPLEX == 4096
F_NOHDRS == 8192
F_FULLINIT == 16384
F_DATAONLY == 32768
F_KEEPALIVE == 65536

\* error codes (diag_err.h)
E_GENERAL == -1
E_INITNS == -4
E_PROTONS == -5
E_TIMEOUT == -8
E_BUS == -16
E_BADLEN == -17
E_BADDATA == -18
E_BADCS == -19
E_INCDATA == -20
E_WRONGKB == -21
E_ECUNO == -32
=============================================================================
