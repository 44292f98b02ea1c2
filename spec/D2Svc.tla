------------------------------- MODULE D2Svc -------------------------------
(* Requests and positive answers of the Volvo D2 services.                    *)
EXTENDS VBytes
Hi(a) == a \div 256
Lo(a) == a % 256
\* namespaces: 0 memory, 3 live data, 4 live data by two-byte identifier, 5 NV, 6 freeze frame
Request(c) ==
  CASE c.f = "ping" -> <<161>>
    [] c.f \in {"dtclist", "cleardtc"} -> <<174, 1>>
    [] c.f = "run" -> <<178, Lo(c.addr)>>
    [] c.f = "io" -> IF c.reps = 0 THEN <<176, Lo(c.addr)>> ELSE <<176, Lo(c.addr), 50, c.reps>>
    [] c.f = "read" /\ c.ns = 0 -> <<167, 0, Hi(c.addr), Lo(c.addr), 1, c.n>>
    [] c.f = "read" /\ c.ns = 4 -> <<166, Hi(c.addr), Lo(c.addr), 1>>
    [] c.f = "read" /\ c.ns \in {3, 5, 6} /\ c.addr < 256 -> (CASE c.ns = 3 -> <<165, c.addr, 1>> [] c.ns = 5 -> <<185, c.addr>> [] OTHER -> <<173, c.addr, 0>>)
    [] OTHER -> <<>>                                          \* no such request
\* bytes of the request a positive answer repeats, after the service
Echo(c) ==
  CASE c.f = "ping" -> <<>>
    [] c.f \in {"dtclist", "cleardtc"} -> <<1>>
    [] c.f \in {"run", "io"} -> <<Lo(c.addr)>>
    [] c.ns = 0 -> <<0, Hi(c.addr), Lo(c.addr)>>
    [] c.ns = 4 -> <<Hi(c.addr), Lo(c.addr)>>
    [] OTHER -> <<c.addr>>
Positive(c, m) ==
  LET q == Request(c) IN
  LET e == <<Bxor(q[1], 64)>> \o Echo(c) IN
  /\ IsPrefix(e, m)
  /\ c.f \in {"run", "io"} => Len(m) = 2
  /\ c.f = "read" /\ c.ns = 0 => Len(m) = 4 + c.n
Data(c, m) == Drop(m, 1 + Len(Echo(c)))
RECURSIVE Ones(_)
Ones(x) == IF x = 0 THEN 0 ELSE (x % 2) + Ones(x \div 2)
OddParity(a) == (a % 128) + (IF Ones(a % 128) % 2 = 0 THEN 128 ELSE 0)
Frame(dst, src, pay) == <<128 + Len(pay) + 1, dst, src>> \o pay
Payload(b) == SubSeq(b, 4, Len(b) - 1)
Busy(b, sid) == Payload(b) = <<126, sid, 35>>
=============================================================================
