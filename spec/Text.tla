-------------------------------- MODULE Text --------------------------------
(* Texts: words of a line, numbers as users write and read them.             *)
EXTENDS VBytes
Ch(s, i) == SubSeq(s, i, i)
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lower == "abcdefghijklmnopqrstuvwxyz"
Ix(s, c) == IF \E i \in 1..Len(s) : Ch(s, i) = c THEN CHOOSE i \in 1..Len(s) : Ch(s, i) = c ELSE 0
Low(c) == LET i == Ix(Upper, c) IN IF i = 0 THEN c ELSE Ch(Lower, i)
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Low(Ch(a, i)) = Low(Ch(b, i))
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
RECURSIVE WordsFrom(_, _, _, _)
WordsFrom(s, i, a, acc) ==       \* a: where the current word began, 0 between words
  IF i > Len(s) THEN (IF a = 0 THEN acc ELSE Append(acc, SubSeq(s, a, Len(s))))
  ELSE IF Ch(s, i) \in {" ", "\t"} THEN WordsFrom(s, i + 1, 0, IF a = 0 THEN acc ELSE Append(acc, SubSeq(s, a, i - 1)))
  ELSE WordsFrom(s, i + 1, IF a = 0 THEN i ELSE a, acc)
Words(s) == WordsFrom(s, 1, 0, <<>>)
\* the text's entry among names, 0 if there is none
Among(names, w) == LET hit == {i \in DOMAIN names : names[i] # "" /\ Same(names[i], w)} IN IF hit = {} THEN 0 ELSE CHOOSE i \in hit : TRUE
RECURSIVE JoinTo(_, _, _)
JoinTo(ss, sep, n) == IF n = 0 THEN "" ELSE JoinTo(ss, sep, n - 1) \o ss[n] \o sep
Join(ss, sep) == JoinTo(ss, sep, Len(ss))          \* sep follows every element
-----------------------------------------------------------------------------
HexDigits == "0123456789ABCDEF"
HexD(n) == Ch(HexDigits, n + 1)
RECURSIVE HexU(_)
HexU(n) == IF n < 16 THEN HexD(n) ELSE HexU(n \div 16) \o HexD(n % 16)
Hex2(n) == IF n < 16 THEN "0" \o HexD(n) ELSE HexU(n)
HexS(n) == IF n >= 0 THEN HexU(n) ELSE "FFFFFF" \o Hex2(256 + n)     \* small negatives, as 32 bits
RECURSIVE PadL(_, _)
PadL(s, n) == IF Len(s) >= n THEN s ELSE PadL(" " \o s, n)
Dump(b) == Join([i \in DOMAIN b |-> "0x" \o Hex2(b[i])], " ")
\* numbers: decimal, octal (0...), hexadecimal (0x... or $...), possibly negative
MaxInt == 2147483647
BadNum == [ok |-> FALSE, v |-> 0]
Val(c) == LET i == Ix("0123456789abcdef", Low(c)) IN IF i = 0 THEN 99 ELSE i - 1
RECURSIVE Digits(_, _, _, _)
Digits(s, i, base, v) ==
  IF i > Len(s) THEN [ok |-> TRUE, v |-> v]
  ELSE LET d == Val(Ch(s, i)) IN IF d >= base \/ v > (MaxInt - d) \div base THEN BadNum ELSE Digits(s, i + 1, base, v * base + d)
Unsigned(s) ==
  IF s = "" THEN BadNum
  ELSE IF Ch(s, 1) = "$" THEN IF Len(s) = 1 THEN BadNum ELSE Digits(s, 2, 16, 0)
  ELSE IF Len(s) >= 2 /\ Ch(s, 1) = "0" /\ Low(Ch(s, 2)) = "x" THEN IF Len(s) = 2 THEN BadNum ELSE Digits(s, 3, 16, 0)
  ELSE IF Ch(s, 1) = "0" THEN Digits(s, 1, 8, 0)
  ELSE Digits(s, 1, 10, 0)
Num(s) == IF s # "" /\ Ch(s, 1) = "-" THEN LET u == Unsigned(SubSeq(s, 2, Len(s))) IN [u EXCEPT !.v = -@] ELSE Unsigned(s)
InRange(s, a, b) == LET n == Num(s) IN n.ok /\ n.v \in a..b
=============================================================================
