------------------------------ MODULE J1979Len ------------------------------
(* SAE J1979 message lengths (no header, no checksum) and division of a byte  *)
(* stream into messages.                                                      *)
EXTENDS Integers, Sequences, Bitwise
ReqLen == <<2, 3, 1, 1, 3, 2, 1, 7, 2>>
\* data bytes of PIDs 1-1F (0: not defined for mode 1 responses)
PidData == [p \in 1..31 |-> CASE p = 1 -> 4 [] p \in {3, 12, 16, 31} -> 2 [] p \in 20..27 -> 2 [] p = 2 -> 2 [] OTHER -> 1]
Bad == -1
Short == -2
TwoNeeded == {65, 66, 69, 73}
Known(m, p) == (p % 32 = 0) \/ (p \in 1..31 /\ p # (IF m = 65 THEN 2 ELSE 1)) \/ p \in 85..88
DataLen(p) == IF p % 32 = 0 THEN 4 ELSE IF p \in 85..88 THEN 1 ELSE PidData[p]
\* length of the message that starts b (b is not empty): n > 0, Bad or Short
MsgLen(b) ==
  LET m == b[1] IN
  IF m \in 1..9 THEN ReqLen[m]
  ELSE IF m \notin 65..73 THEN Bad
  ELSE IF m \in TwoNeeded /\ Len(b) < 2 THEN Short
  ELSE CASE m = 65 -> IF Known(65, b[2]) THEN 2 + DataLen(b[2]) ELSE Bad
         [] m = 66 -> IF Known(66, b[2]) THEN 3 + DataLen(b[2]) ELSE Bad
         [] m = 67 -> 7
         [] m = 68 -> 1
         [] m = 69 -> IF b[2] % 32 = 0 THEN 7 ELSE IF b[2] <= 4 THEN 4 ELSE 6
         [] m \in 70..72 -> 7
         [] OTHER -> IF b[2] % 32 = 0 THEN 7 ELSE IF b[2] % 2 = 1 THEN 3 ELSE 7
\* [msgs |-> messages in order (<<>> marks undecodable data), rest |-> bytes kept]
RECURSIVE SplitFrom(_, _, _)
SplitFrom(b, i, acc) ==
  IF i > Len(b) THEN [msgs |-> acc, rest |-> <<>>]
  ELSE LET w == SubSeq(b, i, IF i + 1 < Len(b) THEN i + 1 ELSE Len(b))  n == MsgLen(w) IN
       IF n = Short THEN [msgs |-> acc, rest |-> SubSeq(b, i, Len(b))]
       ELSE IF n = Bad THEN [msgs |-> Append(acc, <<>>), rest |-> <<>>]
       ELSE IF i + n - 1 > Len(b) THEN [msgs |-> acc, rest |-> SubSeq(b, i, Len(b))]
       ELSE SplitFrom(b, i + n, Append(acc, SubSeq(b, i, i + n - 1)))
Split(b) == SplitFrom(b, 1, <<>>)
=============================================================================
