------------------------------- MODULE K71Svc -------------------------------
(* Requests and positive answers of the KWP71 services, as KWP1281 blocks.    *)
EXTENDS VBytes
\* namespaces: 0 memory, 1 ROM, 2 analogue channel
Title(c) == CASE c.f = "ping" -> 9 [] c.f \in {"dtclist", "cleardtc"} -> 7
              [] c.f = "read" /\ c.ns = 0 -> 1 [] c.f = "read" /\ c.ns = 1 -> 3 [] c.f = "read" /\ c.ns = 2 /\ c.addr < 256 -> 8 [] OTHER -> -1
Args(c) == IF c.f # "read" THEN <<>> ELSE IF c.ns = 2 THEN <<c.addr>> ELSE <<c.n, c.addr \div 256, c.addr % 256>>
Want(c) == CASE c.f = "ping" -> 9 [] c.f \in {"dtclist", "cleardtc"} -> 252 [] c.ns = 0 -> 254 [] c.ns = 1 -> 253 [] OTHER -> 251
Fits(c, m) == m.type = Want(c) /\ (c.f = "read" => Len(m.b) = (IF c.ns = 2 THEN 2 ELSE c.n))
Codes(m) == IF m.b = <<0>> THEN <<>> ELSE m.b
=============================================================================
