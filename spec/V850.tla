-------------------------------- MODULE V850 --------------------------------
(* The Volvo commands as the user sees them (C30): connecting to one of the   *)
(* car's control units, reading, decoding and showing what it holds.          *)
(* The program around them (settings, sessions) is Prog; the services are     *)
(* those of modules D2Svc and K71Svc.                                         *)
EXTENDS Prog, V850Data
S8 == INSTANCE D2Svc
K8 == INSTANCE K71Svc
VARIABLES v8
vvars == <<cfg, dbg, st, pc, exp, acc, menu, mask, v8>>
\* v8: what is left to do for the current command (q); whether codes were read since connecting; the blocks the old
\* control unit identified itself with; whether the last connection succeeded; KWP71: whether it is the tester's turn (km)
\* and the next block's counter (ks), blocks of the answer so far (tel), refused acknowledgements (nac), repetitions (rep); display: live, lines shown (ln), whether the
\* last request was accepted (old); what was written to a file; whether the interface can do D2
V80(able) == [q |-> <<>>, read |-> FALSE, id |-> <<>>, ok |-> FALSE, km |-> FALSE, ks |-> 0, tel |-> <<>>, nac |-> 0, rep |-> 0, live |-> FALSE, ln |-> 0, old |-> FALSE, name |-> "", file |-> "", able |-> able]
VInit(able) == Init0 /\ v8 = V80(able)
I(n) == ToString(n)
-----------------------------------------------------------------------------
(* the control units *)
Known(a) == \E i \in DOMAIN Ecus : Ecus[i].a = a
EcuOf(a) == Ecus[CHOOSE i \in DOMAIN Ecus : Ecus[i].a = a]
Desc(a) == IF Known(a) THEN EcuOf(a).d ELSE "ECU " \o Hex2(a)
Prefix(a) == IF Known(a) THEN EcuOf(a).p ELSE "???"
Link == IF st = Idle THEN "none" ELSE CASE st.p.l2 = "D2" -> "d2" [] st.p.l2 = "VAG" -> "kwp" [] OTHER -> "other"
Tgt == st.p.tgt
DescNow == IF st = Idle THEN "???" ELSE IF Tgt > 127 THEN "???" ELSE Desc(Tgt)
PrefixNow == IF st = Idle THEN "???" ELSE Prefix(Tgt)
\* why a command that needs a connection of kind w cannot run now ("": it can)
Check(w) ==
  IF (w = "either" /\ Link \in {"d2", "kwp"}) \/ Link = w THEN ""
  ELSE CASE Link = "none" -> "Not connected.\n"
         [] Link = "other" -> IF w = "none" THEN "Already connected with non-Volvo protocol. Please use 'diag disconnect'.\n" ELSE "Connected with non-Volvo protocol.\n"
         [] OTHER -> IF w = "none" THEN "Already connected to " \o DescNow \o ". Please disconnect first.\n" ELSE "This function is not available with this protocol.\n"
Capital(s) == LET i == Ix(Lower, Ch(s, 1)) IN IF i = 0 THEN s ELSE Ch(Upper, i) \o SubSeq(s, 2, Len(s))
EcuList == Join([i \in DOMAIN Ecus |-> " " \o Ecus[i].n \o "\t" \o Capital(Ecus[i].d)], "\n")
-----------------------------------------------------------------------------
(* numbers at the beginning of a word: value (capped) and the rest of it      *)
Dig == "0123456789"
IsDig(c) == Ix(Dig, c) # 0
IsAlpha(c) == Ix(Upper, c) # 0 \/ Ix(Lower, c) # 0
Cap == 100000
RECURSIVE Run(_, _, _, _)
Run(s, i, base, v) == IF i > Len(s) THEN [v |-> v, r |-> ""] ELSE LET d == Val(Ch(s, i)) IN
  IF d >= base THEN [v |-> v, r |-> SubSeq(s, i, Len(s))] ELSE Run(s, i + 1, base, IF v >= Cap THEN Cap ELSE v * base + d)
Pref(s) ==
  IF s = "" THEN [v |-> Cap, r |-> ""]
  ELSE IF ~IsDig(Ch(s, 1)) THEN [v |-> Cap, r |-> s]
  ELSE IF Len(s) >= 3 /\ Ch(s, 1) = "0" /\ Low(Ch(s, 2)) = "x" /\ Val(Ch(s, IF Len(s) >= 3 THEN 3 ELSE 1)) < 16 THEN Run(s, 3, 16, 0)
  ELSE IF Ch(s, 1) = "0" THEN Run(s, 1, 8, 0) ELSE Run(s, 1, 10, 0)
Addr8(s) == IF IsDig(Ch(s, 1)) THEN LET p == Pref(s) IN IF p.r = "" /\ p.v < 128 THEN p.v ELSE -1
            ELSE LET k == Among([i \in DOMAIN Ecus |-> Ecus[i].n], s) IN IF k = 0 THEN -1 ELSE Ecus[k].a
-----------------------------------------------------------------------------
(* trouble codes: as printed, and back from what is printed *)
Entry(a, raw) == LET t == Table(a)  hit == {i \in DOMAIN t : t[i].r = raw} IN IF hit = {} THEN <<>> ELSE <<t[CHOOSE i \in hit : \A j \in hit : i <= j]>>
Pad3(n) == LET s == I(n) IN IF n < 10 THEN "00" \o s ELSE IF n < 100 THEN "0" \o s ELSE s
Code(a, raw) == LET e == Entry(a, raw) IN Prefix(a) \o "-" \o (IF e = <<>> THEN "???" ELSE IF e[1].s < 0 THEN "???" ELSE Pad3(IF e[1].s > 999 THEN 999 ELSE e[1].s))
DescOf(a, raw) == LET e == Entry(a, raw) IN IF e = <<>> THEN "" ELSE e[1].d
TipOf(a, raw) == LET e == Entry(a, raw) IN IF e = <<>> THEN "" ELSE e[1].t
RECURSIVE Letters(_, _)
Letters(s, i) == IF i > Len(s) THEN i - 1 ELSE IF IsAlpha(Ch(s, i)) THEN Letters(s, i + 1) ELSE i - 1
\* the raw value of a designation such as EFI-123 (-1: there is none)
RawOf(s) ==
  LET k == Letters(s, 1)  j == IF k < Len(s) /\ Ch(s, IF k < Len(s) THEN k + 1 ELSE 1) = "-" THEN k + 2 ELSE k + 1
      num == SubSeq(s, j, Len(s)) IN
  IF Len(s) > 7 \/ num = "" THEN -1
  ELSE IF ~IsDig(Ch(num, 1)) THEN -1
  ELSE LET p == Run(num, 1, 10, 0)  t == Table(Tgt)  hit == {i \in DOMAIN t : t[i].s = p.v} IN
    IF p.r # "" \/ p.v > 32767 \/ p.v = 0 \/ ~Same(SubSeq(s, 1, k), PrefixNow) \/ hit = {} THEN -1 ELSE t[CHOOSE i \in hit : \A x \in hit : i <= x].r
RECURSIVE Texts(_, _)       \* f(1) \o ... \o f(n)
Texts(f(_), n) == IF n = 0 THEN "" ELSE Texts(f, n - 1) \o f(n)
\* the list of codes, and remarks about it; many: whether there is more than one
DtcText(a, cs, show, many) ==
  LET tips == {i \in DOMAIN cs : TipOf(a, cs[i]) # ""}
      unsure == \E i \in DOMAIN cs : LET d == DescOf(a, cs[i]) IN IF d = "" THEN FALSE ELSE Ch(d, Len(d)) = "?" IN
  "Stored DTCs:\n"
  \o Texts(LAMBDA i : Code(a, cs[i]) \o " (" \o Hex2(cs[i]) \o ") " \o DescOf(a, cs[i]) \o "\n" \o (IF show /\ i \in tips THEN TipOf(a, cs[i]) \o "\n" ELSE ""), Len(cs))
  \o (IF unsure THEN "Warning: descriptions and DTC suffixes for lines ending in ? are unconfirmed\n" ELSE "")
  \o (IF tips # {} /\ ~show THEN "Tips are available for " \o (IF many THEN "some of these DTCs" ELSE "this DTC") \o ". Use \"dtc tips\" to show them.\n" ELSE "")
  \o (IF tips = {} /\ show THEN "No tips are available for " \o (IF many THEN "these DTCs" ELSE "this DTC") \o ".\n" ELSE "")
-----------------------------------------------------------------------------
(* what values mean *)
TDiv(n, d) == IF n >= 0 THEN n \div d ELSE -((-n) \div d)
Frac(q, d) == LET p == <<10, 100>>[d]  f == I(q % p) IN I(q \div p) \o "." \o (IF d = 2 /\ q % p < 10 THEN "0" ELSE "") \o f
SFrac(q) == (IF q < 0 THEN "-" \o Frac(-q, 1) ELSE "+" \o Frac(q, 1))
Temp(c) == I(c) \o "C (" \o I(TDiv(c * 9, 5) + 32) \o "F)"
S16(v) == IF v >= 32768 THEN v - 65536 ELSE v
Battery(b) == "Battery voltage: " \o Frac((140 * b + 99) \div 198, 1) \o " V"
\* tenths of 100 b / 128 - 100, rounded half to even
Trim(b) == LET n == 125 * b - 16000  q == n \div 16  r == n % 16 IN SFrac(IF r > 8 \/ (r = 8 /\ q % 2 = 1) THEN q + 1 ELSE q)
Switch == <<"Open", "S", "E", "W", "Unknown">>
Driving == <<"Economy", "Sport", "Winter", "Unknown">>
Warm == <<"in progress or engine off", "completed", "not possible", "status unknown">>
Pick(t, i) == t[IF i + 1 > Len(t) THEN Len(t) ELSE i + 1]
Signed(n) == IF n < 0 THEN I(n) ELSE "+" \o I(n)
\* lines shown for the value at address a (of kind ns) of control unit e, b: the bytes from there on
Meaning(e, ns, a, b) ==
  CASE ns = 3 /\ e = 122 /\ a = 512 /\ Len(b) >= 2 -> <<"Engine Coolant Temperature: " \o Temp(b[2] - 80)>>
    [] ns = 3 /\ e = 122 /\ a = 768 -> <<Battery(b[1])>>
    [] ns = 0 /\ e = 16 /\ a = 54 -> <<Battery(b[1])>>
    [] ns = 3 /\ e = 122 /\ a = 2560 -> <<"Warm-up " \o Warm[((b[1] \div 4) % 4) + 1], "MIL " \o (IF HasBit(b[1], 16) THEN "" ELSE "not ") \o "requested by TCM">>
    [] ns = 3 /\ e = 122 /\ a = 4096 -> <<"MAF sensor signal: " \o Frac((688 * b[1] + 153) \div 306, 2) \o " V">>
    [] ns = 3 /\ e = 122 /\ a = 6144 -> <<"Short term fuel trim: " \o Trim(b[1]) \o "%">>
    [] ns = 3 /\ e = 122 /\ a = 6400 -> <<"Long term fuel trim, additive (unscaled): " \o Signed(b[1] - 128)>>
    [] ns = 3 /\ e = 122 /\ a = 6656 -> <<"Long term fuel trim, multiplicative: " \o Trim(b[1]) \o "%">>
    [] ns = 3 /\ e = 110 /\ a = 1280 /\ Len(b) >= 2 -> <<"Mode selector: MS1 " \o (IF HasBit(b[1], 1) THEN "low" ELSE "high") \o ", MS2 " \o (IF HasBit(b[1], 2) THEN "low" ELSE "high")
         \o ", switch position " \o Pick(Switch, b[1]), "Driving mode: " \o Pick(Driving, b[2])>>
    [] ns = 3 /\ e = 110 /\ a = 3072 /\ Len(b) >= 4 -> LET v == 256 * b[1] + b[2] IN
         <<"ATF temperature sensor voltage: " \o Frac((1000 * v + 1023) \div 2046, 2) \o " V", "ATF temperature sensor resistance: " \o I((1000 * v) \div (1023 - v)) \o " ohms",
           "ATF temperature: " \o Temp(S16((256 * b[3] + b[4] - 11) % 65536))>>
    [] OTHER -> <<>>
RECURSIVE Meanings(_, _, _, _)
Meanings(e, ns, a, b) == IF b = <<>> THEN <<>> ELSE Meaning(e, ns, a, b) \o Meanings(e, ns, a + 1, Tail(b))
Hex4(n) == Hex2(n \div 256) \o Hex2(n % 256)
Row(head, b) == head \o ":" \o Texts(LAMBDA i : " " \o Hex2(b[i]), Len(b))
\* lines for item a (kind ns) of which n bytes came, d
ItemRows(ns, a, d) ==
  IF d = <<>> THEN <<Hex2(a) \o ": no data">>
  ELSE LET s == Take(d, 20) IN <<Row(Hex2(a), s)>> \o (IF Len(d) > 20 THEN <<" (" \o I(Len(d)) \o " bytes received, only first 20 shown)">> ELSE <<>>) \o Meanings(Tgt, ns, a * 256, s)
MemRows(a, d) == <<Row(Hex4(a), d)>> \o Meanings(Tgt, 0, a, d)
\* in the live display, what was there before is erased
Rows(rs) == Texts(LAMBDA i : rs[i] \o (IF v8.live THEN "<K>\n" ELSE "\n"), Len(rs))
-----------------------------------------------------------------------------
(* identification *)
Chars8 == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Asc(b) == Texts(LAMBDA i : Ch(Chars8, b[i] - 31), Len(b))
Printable(b) == \A i \in DOMAIN b : b[i] \in 32..126
AllDigits(b) == \A i \in DOMAIN b : b[i] \in 48..57
HexRun(b) == Texts(LAMBDA i : Hex2(b[i]), Len(b))
Short(n, want) == "Identification response was " \o I(n) \o " bytes, expected " \o I(want) \o "\n"
Order(b) == "Order number: " \o Asc(SubSeq(b, 1, 1)) \o " " \o Asc(SubSeq(b, 2, 4)) \o " " \o Asc(SubSeq(b, 5, 7)) \o " " \o Asc(SubSeq(b, 8, 10)) \o "\n"
IdText(d) ==
  IF Len(d) # 15 THEN [ok |-> FALSE, x |-> Short(Len(d), 15)]
  ELSE IF d[1] # 0 THEN [ok |-> FALSE, x |-> "First identification response byte was " \o Hex2(d[1]) \o ", expected 0\n"]
  ELSE IF ~Printable(SubSeq(d, 6, 8) \o SubSeq(d, 13, 15)) THEN [ok |-> FALSE, x |-> "Unexpected characters in version response\n"]
  ELSE [ok |-> TRUE, x |-> "Hardware ID: P" \o HexRun(SubSeq(d, 2, 5)) \o " revision " \o Asc(SubSeq(d, 6, 8)) \o "\nSoftware ID:  " \o HexRun(SubSeq(d, 9, 12)) \o " revision " \o Asc(SubSeq(d, 13, 15)) \o "\n"]
BadChars == "Unexpected characters in identification block\n"
Id2Text(d) == IF Len(d) # 10 THEN Short(Len(d), 10) ELSE IF ~AllDigits(d) THEN BadChars ELSE Order(d)
Block8(n) == "Identification block was " \o I(n) \o " bytes, expected 10\n"
KIdText(ms) ==
  IF Len(ms[1].b) # 10 THEN Block8(Len(ms[1].b))
  ELSE IF ~AllDigits(ms[1].b) THEN BadChars
  ELSE Order(ms[1].b) \o (IF Len(ms) < 3 THEN "" ELSE IF Len(ms[3].b) # 10 THEN Block8(Len(ms[3].b)) ELSE IF ~AllDigits(Take(ms[3].b, 7)) THEN BadChars ELSE "Hardware ID: P0" \o Asc(Take(ms[3].b, 7)) \o "\n")
-----------------------------------------------------------------------------
(* arguments: [ok, x: what is said about them, it: the items meant]           *)
Memory(a, z, star) == [ns |-> 0, a |-> a, n |-> z - a + 1, star |-> star]
Item(ns, a) == [ns |-> ns, a |-> a]
No(x) == [ok |-> FALSE, x |-> x, it |-> <<>>]
Got(x, it) == [ok |-> TRUE, x |-> x, it |-> <<it>>]
PeekArg(s, star) ==
  LET p == Pref(s)  bad == No("Invalid address '" \o s \o "'\n")  r == p.r IN
  IF p.v > 65535 THEN bad
  ELSE IF r = "" THEN Got("", Memory(p.v, p.v, star))
  ELSE IF Low(r) = "w" THEN IF p.v + 1 > 65535 THEN bad ELSE Got("", Memory(p.v, p.v + 1, star))
  ELSE IF Low(r) = "l" THEN IF p.v + 3 > 65535 THEN bad ELSE Got("", Memory(p.v, p.v + 3, star))
  ELSE IF Ch(r, 1) \in {".", "-"} /\ Len(r) > 1 THEN
    LET q == Pref(SubSeq(r, 2, Len(r))) IN IF q.r # "" \/ q.v < p.v \/ q.v > 65535 THEN No("Invalid address range '" \o s \o "'\n") ELSE Got("", Memory(p.v, q.v, star))
  ELSE bad
BadId(s) == No("Invalid identifier '" \o s \o "'\n")
IdArg(ns, s) == LET p == Pref(s) IN IF p.r # "" \/ p.v > 255 THEN BadId(s) ELSE Got("", Item(ns, p.v))
ReadArg(s) == IF Ch(s, 1) = "*" THEN (IF Len(s) = 1 THEN BadId(s) ELSE PeekArg(SubSeq(s, 2, Len(s)), TRUE)) ELSE IdArg(3, s)
FreezeArg(s) ==
  IF IsAlpha(Ch(s, 1)) THEN LET w == RawOf(s) IN IF w < 0 THEN BadId(s) ELSE Got("", Item(6, w))
  ELSE LET p == Pref(s)  dec == IsDig(Ch(s, 1)) /\ Ch(s, 1) # "0" IN
    IF p.r # "" \/ p.v > 255 THEN No("Invalid identifier '" \o s \o "'\n" \o (IF dec /\ p.r = "" THEN "Did you mean " \o PrefixNow \o "-" \o s \o "?\n" ELSE ""))
    ELSE Got(IF ~dec THEN "" ELSE "Warning: retrieving freeze frame by raw identifier " \o I(p.v) \o " (=" \o Hex2(p.v) \o ").\nDid you mean " \o (IF p.v < 100 THEN "0x" ELSE PrefixNow \o "-") \o s \o "?\n", Item(6, p.v))
Arg(ns, s) == CASE ns = 0 -> PeekArg(s, FALSE) [] ns = 3 -> ReadArg(s) [] ns = 6 -> FreezeArg(s) [] OTHER -> IdArg(ns, s)
RECURSIVE Args8(_, _)
Args8(ns, as) == IF as = <<>> THEN [ok |-> TRUE, x |-> "", it |-> <<>>]
  ELSE LET h == Arg(ns, Head(as)) IN IF ~h.ok THEN h ELSE LET t == Args8(ns, Tail(as)) IN [ok |-> t.ok, x |-> h.x \o t.x, it |-> h.it \o t.it]
-----------------------------------------------------------------------------
(* steps of a command *)
Text(x) == [k |-> "say", x |-> x]
Ask(c, h) == [k |-> "ask", c |-> c, h |-> h]                 \* a request to the control unit; h: what to do with the answer
Call(f, ns, addr, n, reps) == [f |-> f, ns |-> ns, addr |-> addr, n |-> n, reps |-> reps]
H(w) == [w |-> w]
ReadCall(ns, a, n) == Call("read", IF Link = "kwp" /\ ns = 2 THEN 2 ELSE ns, a, n, 0)
MinI(a, b) == IF a < b THEN a ELSE b
ItemStep(it) == IF it.ns = 0 THEN Ask(ReadCall(0, it.a, MinI(it.n, 8)), [w |-> "mem", it |-> it]) ELSE Ask(ReadCall(it.ns, it.a, 20), [w |-> "item", it |-> it])
ItemSteps(its) == [i \in DOMAIN its |-> ItemStep(its[i])]
DtcSteps(show) == <<Ask(Call("dtclist", 0, 0, 12, 0), [w |-> "dtc", show |-> show])>>
IdSteps == IF Link = "kwp" THEN <<Text(IF v8.id = <<>> THEN "No stored ECU identification!\n" ELSE KIdText(v8.id))>> ELSE <<Ask(Call("read", 5, 240, 15, 0), H("id"))>>
Usages == [connect |-> "connect <ecuname>\nConnect to ECU. Use '850 connect ?' to show ECU names.", disconnect |-> "disconnect\nDisconnect from ECU",
  scan_all |-> "scan-all\nTry connecting to all possible ECUs, print identification and DTCs", sendreq |-> "sendreq <byte0 [byte1 ...]>\nSend raw data to the ECU and print response",
  ping |-> "ping\nVerify communication with the ECU", peek |-> "peek <addr1>[w|l][.addr2] [addr2 ...] [live|stream]\nDisplay contents of RAM, once or continuously",
  dumpram |-> "dumpram <filename> [fast]\nDump entire RAM contents to file (Warning: takes 20+ minutes)", read |-> "read <id1>|*<addr1> [id2 ...] [live|stream]\nDisplay live data, once or continuously",
  adc |-> "adc id1 [id2 ...]\nDisplay ADC readings, once or continuously", readnv |-> "readnv id1 [id2 ...]\nDisplay non-volatile data", id |-> "id\nDisplay ECU identification",
  dtc |-> "dtc [tips]\nRetrieve DTCs", cleardtc |-> "cleardtc\nClear DTCs from ECU", freeze |-> "freeze dtc1|all [dtc2 ...]\nDisplay freeze frame(s)", resetsrl |-> "resetsrl\nReset the Service Reminder Light"]
Still == UNCHANGED <<cfg, dbg, st, acc, menu>>
\* start working: say x, then q
Go8(x, q) == Still /\ Say(x) /\ pc' = <<"w8">> /\ v8' = [v8 EXCEPT !.q = q]
Reject8(x) == Reject(x) /\ UNCHANGED v8
Use8(x, c) == Reject(x \o "Usage: " \o Usages[c] \o "\n") /\ UNCHANGED v8
Few == "Too few arguments\n"
Many == "Too many arguments\n"
Family(c, ns, as) ==
  LET n == Len(as)  last == IF n > 0 THEN as[n] ELSE ""  rep == ns \notin {5, 6}
      stream == rep /\ Same(last, "stream")  live == rep /\ Same(last, "live")
      words == IF stream \/ live THEN SubSeq(as, 1, n - 1) ELSE as  p == Args8(ns, words) IN
  IF n = 0 THEN Use8(Few, c) ELSE IF Check("either") # "" THEN Reject8(Check("either"))
  ELSE IF words = <<>> THEN Use8("", c)
  ELSE IF ~p.ok THEN Reject8(p.x)
  ELSE /\ Still /\ Say(p.x) /\ pc' = <<"w8">>
       /\ v8' = [v8 EXCEPT !.q = <<[k |-> "drain"]>> \o ItemSteps(p.it) \o (IF stream \/ live THEN <<[k |-> "loop", it |-> p.it]>> ELSE <<>>), !.live = live, !.ln = 0]
NoArgs(c, as, want, q) == IF as # <<>> THEN Use8(Many, c) ELSE IF Check(want) # "" THEN Reject8(Check(want)) ELSE Go8("", q)
Do8(c, as) ==
  LET n == Len(as)  v == IF n > 0 THEN as[1] ELSE ""  a == IF n = 1 THEN Addr8(v) ELSE -1 IN
  CASE Same(c, "connect") -> IF n # 1 THEN Use8(IF n = 0 THEN Few ELSE Many, "connect")
         ELSE IF v = "?" THEN Use8("Known ECUs are:\n" \o EcuList \o "Can also specify target by numeric address.\n", "connect")
         ELSE IF Check("none") # "" THEN Reject8(Check("none")) ELSE IF a < 0 THEN Reject8("Unknown ECU '" \o v \o "'\n") ELSE Go8("", <<[k |-> "conn", a |-> a]>>)
    [] Same(c, "disconnect") -> NoArgs("disconnect", as, "either", <<[k |-> "disc"]>>)
    [] Same(c, "scan-all") -> NoArgs("scan_all", as, "none", <<Text("Scanning all ECUs.\n"), [k |-> "scan", i |-> 1]>>)
    [] Same(c, "sendreq") -> IF n = 0 THEN Use8(Few, "sendreq") ELSE IF Check("either") # "" THEN Reject8(Check("either"))
         ELSE IF ~ByteArgs(as) THEN Reject8("Invalid byte " \o FirstBad(as) \o "\n")
         ELSE IF n > 255 THEN Reject8("sendreq: failed error -1\n")
         ELSE Go8("", <<[k |-> "raw", b |-> [i \in DOMAIN as |-> Num(as[i]).v]]>>)
    [] Same(c, "ping") -> NoArgs("ping", as, "either", <<Ask(Call("ping", 0, 0, 0, 0), H("ping"))>>)
    [] Same(c, "peek") -> Family("peek", 0, as)
    [] Same(c, "dumpram") -> IF n = 0 \/ n > 2 THEN Use8("", "dumpram") ELSE IF n = 2 /\ ~Same(as[IF n = 2 THEN 2 ELSE 1], "fast") THEN Use8("", "dumpram")
         ELSE IF Check("d2") # "" THEN Reject8(Check("d2")) ELSE IF Ix(v, "/") # 0 THEN Reject8("Can't open file: No such file or directory\n")
         ELSE Still /\ Say("Dumping RAM to " \o v \o "...\n") /\ pc' = <<"w8">> /\ v8' = [v8 EXCEPT !.q = <<[k |-> "dump", a |-> 0, fast |-> n = 2]>>, !.name = v, !.file = ""]
    [] Same(c, "read") -> IF Check("d2") # "" THEN Reject8(Check("d2")) ELSE Family("read", 3, as)
    [] Same(c, "adc") -> IF Check("kwp") # "" THEN Reject8(Check("kwp")) ELSE Family("adc", 2, as)
    [] Same(c, "readnv") -> IF Check("d2") # "" THEN Reject8(Check("d2")) ELSE Family("readnv", 5, as)
    [] Same(c, "freeze") -> IF Check("d2") # "" THEN Reject8(Check("d2")) ELSE IF n = 1 /\ Same(v, "all") THEN Go8("", <<Ask(Call("dtclist", 0, 0, 12, 0), H("frall"))>>) ELSE Family("freeze", 6, as)
    [] Same(c, "id") -> NoArgs("id", as, "either", <<[k |-> "id"]>>)
    [] Same(c, "dtc") -> IF n > 1 THEN Use8(Many, "dtc") ELSE IF n = 1 /\ ~Same(v, "tips") THEN Use8("", "dtc")
         ELSE IF Check("either") # "" THEN Reject8(Check("either")) ELSE Go8("", DtcSteps(n = 1))
    [] Same(c, "cleardtc") -> NoArgs("cleardtc", as, "either", <<[k |-> "yes", x |-> "Are you sure you wish to clear the Diagnostic Trouble Codes (y/n) ? "]>>
         \o (IF v8.read THEN <<>> ELSE <<[k |-> "yes", x |-> "You haven't read the DTCs yet. Are you sure you wish to clear them (y/n) ? "]>>) \o <<Ask(Call("cleardtc", 0, 0, 1, 0), H("clear"))>>)
    [] Same(c, "resetsrl") -> IF n > 0 THEN Use8(Many, "resetsrl") ELSE Go8("", <<[k |-> "yes", x |-> "Are you sure you wish to reset the Service Reminder Light (y/n) ? "], [k |-> "srl"]>>)
    [] Same(c, "test") -> IF Check("d2") # "" THEN Reject8(Check("d2"))
         ELSE IF n = 1 /\ (Same(v, "fan1") \/ Same(v, "fan2")) /\ Tgt = 122 THEN Go8("", <<Ask(Call("io", 0, IF Same(v, "fan1") THEN 14 ELSE 31, 0, 3), H("fan"))>>)
         ELSE Reject8("Usage: test <testname>\n" \o (IF Tgt # 122 THEN "No available tests for this ECU.\n"
            ELSE "Available tests:\nfan1 - Activate engine cooling fan, half speed (please keep fingers clear)\nfan2 - Activate engine cooling fan, full speed (please keep fingers clear)\n"))
    [] OTHER -> Reject8("Unrecognized command. Try \"help\"\n")
-----------------------------------------------------------------------------
(* working through the steps *)
Next8(q) == pc' = <<"w8">> /\ v8' = [v8 EXCEPT !.q = q]
Cfg8(a) == IF a = 16 THEN [cfg EXCEPT !.speed = 9600, !.tgt = a, !.l1 = 1, !.l2 = "VAG", !.init = "5BAUD"] ELSE [cfg EXCEPT !.speed = 10400, !.src = 19, !.tgt = a, !.l1 = 1, !.l2 = "D2", !.init = "5BAUD"]
Ping3 == [i \in 1..3 |-> Ask(Call("ping", 0, 0, 0, 0), H("none"))]
Work8 ==
  /\ pc = <<"w8">>
  /\ IF v8.q = <<>> THEN NoState /\ Done("") /\ v8' = [v8 EXCEPT !.live = FALSE]
     ELSE LET h == Head(v8.q)  t == Tail(v8.q) IN
     CASE h.k = "say" -> Still /\ Say(h.x) /\ Next8(t)
       [] h.k = "conn" -> /\ cfg' = Cfg8(h.a) /\ UNCHANGED <<dbg, st, acc, menu>>
                          /\ IF Supported(1) THEN UNCHANGED exp /\ pc' = <<"8open", h.a>> /\ v8' = [v8 EXCEPT !.q = t] ELSE Say("cmd_850_connect: diag_l2_open failed\n") /\ pc' = <<"w8">> /\ v8' = [v8 EXCEPT !.q = t, !.ok = FALSE]
       [] h.k = "disc" -> Still /\ UNCHANGED exp /\ v8' = [v8 EXCEPT !.q = t] /\ pc' = (IF Link = "d2" THEN <<"8stop", <<"8close", "disc">>>> ELSE <<"8close", "disc">>)
       [] h.k = "scan" -> Still /\ UNCHANGED exp /\ Next8(IF h.i > Len(Ecus) THEN <<Text("Scan-all done.\n")>> ELSE IF Ecus[h.i].a = 16 THEN <<[k |-> "scan", i |-> h.i + 1]>>
                                     ELSE <<[k |-> "conn", a |-> Ecus[h.i].a], [k |-> "if", y |-> <<[k |-> "id"], [k |-> "dtc"], [k |-> "disc"]>>, n |-> <<Text("Couldn't connect to " \o Ecus[h.i].d \o ".\n")>>], [k |-> "scan", i |-> h.i + 1]>>)
       [] h.k = "if" -> Still /\ UNCHANGED exp /\ Next8((IF v8.ok THEN h.y ELSE h.n) \o t)
       [] h.k = "id" -> Still /\ UNCHANGED exp /\ Next8(IdSteps \o t)
       [] h.k = "dtc" -> Still /\ UNCHANGED exp /\ Next8(DtcSteps(FALSE) \o t)
       [] h.k = "yes" -> Still /\ Say(h.x) /\ pc' = <<"8yes">> /\ v8' = [v8 EXCEPT !.q = t]
       [] h.k = "srl" -> LET q == IF Link = "none" THEN <<>> ELSE IF Tgt = 81 THEN <<>>
                                  ELSE <<Text("Disconnecting from " \o DescNow \o " first.\n")>> \o (IF Check("either") # "" THEN <<Text(Check("either"))>> ELSE <<[k |-> "disc"]>>) IN
                         Still /\ UNCHANGED exp /\ Next8(q \o <<[k |-> "srl2"]>>)
       [] h.k = "srl2" -> Still /\ UNCHANGED exp /\ Next8(IF Link = "none" THEN <<[k |-> "conn", a |-> 81], [k |-> "if", y |-> <<[k |-> "srl3"]>>, n |-> <<Text("Couldn't connect to combined instrument panel.\n")>>]>> ELSE <<[k |-> "srl3"]>>)
       [] h.k = "srl3" -> Still /\ UNCHANGED exp /\ Next8(IF Check("d2") # "" THEN <<Text(Check("d2"))>> ELSE <<Ask(Call("io", 0, 48, 0, 0), H("old")), Ask(Call("run", 0, 48, 0, 0), H("srl"))>>)
       [] h.k = "drain" -> Still /\ UNCHANGED exp /\ Next8(t)
       [] h.k = "loop" -> Still /\ Say(IF v8.live THEN "<F" \o I(v8.ln) \o ">" ELSE "") /\ pc' = <<"w8">> /\ v8' = [v8 EXCEPT !.q = ItemSteps(h.it) \o <<h>>, !.ln = 0]
       [] h.k = "dump" -> Still /\ UNCHANGED exp /\ Next8(<<Ask(Call("read", 0, h.a, 8, 0), [w |-> "dump", a |-> h.a, fast |-> h.fast])>>)
       [] h.k = "raw" -> /\ Still /\ UNCHANGED exp
                         /\ IF Link = "d2" THEN v8' = [v8 EXCEPT !.q = t] /\ pc' = (IF Len(h.b) > 62 THEN <<"8raw">> ELSE <<"8req", <<cfg.tgt, cfg.src>>, h.b, <<"8raw">>>>)
                            ELSE v8' = [v8 EXCEPT !.q = t, !.tel = <<>>, !.nac = 0] /\ pc' = (IF v8.km /\ Len(h.b) <= 253 THEN <<"8kreq", h.b, <<"8kraw">>>> ELSE <<"8kans", <<"8kraw">>>>)
       [] h.k = "ask" -> /\ Still /\ UNCHANGED exp
                         /\ IF Link = "d2" THEN v8' = [v8 EXCEPT !.q = t] /\ pc' = <<"8req", <<0, 0>>, S8!Request(h.c), <<"8ans", h.c, h.h>>>>
                            ELSE v8' = [v8 EXCEPT !.q = t, !.tel = <<>>, !.nac = 0, !.rep = 0] /\ LET b == <<K8!Title(h.c)>> \o K8!Args(h.c) IN
                                 pc' = (IF v8.km THEN <<"8kreq", b, <<"8kres", h.c, h.h, b>>>> ELSE <<"8res", h.h, -1, <<>>>>)
       [] OTHER -> FALSE
\* a key ends the repetition; keys pressed earlier do not count
Key8 ==
  /\ pc = <<"w8">> /\ exp = "" /\ v8.q # <<>> /\ Still /\ UNCHANGED exp
  /\ CASE Head(v8.q).k = "drain" -> UNCHANGED <<pc, v8>>
       [] Head(v8.q).k = "loop" -> pc' = <<"w8">> /\ v8' = [v8 EXCEPT !.q = <<>>]
       [] OTHER -> FALSE
\* answers to questions
Line8(s) ==
  LET w == Words(s)
      in850 == IF w = <<>> THEN FALSE ELSE Ch(s, 1) # "#" /\ ~(\E k \in {"exit", "quit", "up"} : Same(w[1], k)) /\ (menu = "850" \/ (menu = "" /\ Same(w[1], "850"))) IN
  IF pc = <<"8yes">> THEN exp = "" /\ (IF Same(s, "y") \/ Same(s, "yes") THEN Go8("", v8.q) ELSE Go8("Not done\n", <<>>))
  ELSE IF ~in850 THEN Line(s) /\ UNCHANGED v8
  ELSE /\ pc = <<"read">> /\ exp = ""
       /\ IF menu = "850" THEN Do8(w[1], Tail(w))
          ELSE IF Len(w) > 1 THEN Do8(w[2], SubSeq(w, 3, Len(w)))
          ELSE menu' = "850" /\ UNCHANGED <<cfg, dbg, st, acc, v8>> /\ pc' = <<"read">> /\ Say("freediag/850> ")
Eof8 == IF pc = <<"8yes">> THEN exp = "" /\ Go8("", <<>>) ELSE Eof /\ UNCHANGED v8
-----------------------------------------------------------------------------
(* connecting *)
At8(x) == pc' = x /\ UNCHANGED <<cfg, dbg, st, exp, menu>>
Fail8 == <<"8close", "fail">>
Open8(proto, rc) ==
  /\ pc[1] = "8open" /\ exp = "" /\ proto = 1 /\ UNCHANGED <<cfg, dbg, st, menu, acc>>
  /\ IF rc # 0 THEN Say("cmd_850_connect: diag_l2_open failed\n") /\ pc' = <<"w8">> /\ v8' = [v8 EXCEPT !.ok = FALSE]
     ELSE IF pc[2] # 16 /\ ~v8.able THEN Say("Can't do D2 over K-line on this L0 interface yet, sorry.\n") /\ pc' = Fail8 /\ UNCHANGED v8
     ELSE UNCHANGED <<exp, v8>> /\ pc' = <<"8speed", pc[2]>>
Speed8(v, db, sb, par) == pc[1] = "8speed" /\ exp = "" /\ v = cfg.speed /\ db = 8 /\ sb = 1 /\ par = 3 /\ At8(<<"8ib", pc[2]>>) /\ UNCHANGED <<acc, v8>>
InitBus8(type, addr, tester, rc, kb) ==
  /\ pc[1] = "8ib" /\ exp = "" /\ type = 2 /\ Fresh /\ UNCHANGED v8
  /\ IF pc[2] = 16 THEN addr = 16 /\ At8(IF rc < 0 THEN Fail8 ELSE <<"8kkb">>)
     ELSE addr = S8!OddParity(pc[2]) /\ tester = 19 /\ At8(IF rc < 0 \/ kb \notin {<<0, 0>>, <<211, 176>>} THEN Fail8 ELSE <<"8est", pc[2]>>)
KbFail8 == pc = <<"8kkb">> /\ Len(Bytes) < 2 /\ At8(Fail8) /\ Fresh /\ UNCHANGED v8
Est8 ==
  /\ pc[1] = "8est" /\ UNCHANGED <<cfg, dbg, menu, acc>> /\ pc' = <<"w8">>
  /\ LET a == pc[2] IN
     /\ st' = [s |-> "conn", p |-> [l2 |-> cfg.l2, init |-> "5BAUD", func |-> cfg.func, tgt |-> a, src |-> cfg.src, l1 |-> 1], kb |-> <<0, 0>>, l3 |-> ""]
     /\ Say("Connected to " \o Desc(a) \o ".\n" \o (IF a = 16 THEN "Warning: KWP71 communication is not entirely reliable yet.\n" ELSE ""))
     /\ v8' = [v8 EXCEPT !.ok = TRUE, !.read = FALSE, !.q = (IF a = 16 THEN <<>> ELSE Ping3) \o @]
Close8(was) ==
  /\ pc[1] = "8close" /\ exp = "" /\ was = 1 /\ UNCHANGED <<cfg, dbg, menu, acc>> /\ st' = Idle
  /\ CASE pc[2] = "fail" -> v8' = [v8 EXCEPT !.ok = FALSE] /\ UNCHANGED exp /\ pc' = <<"w8">>
       [] pc[2] = "disc" -> v8' = [v8 EXCEPT !.read = FALSE] /\ Say("Disconnected from " \o DescNow \o ".\n") /\ pc' = <<"w8">>
       [] OTHER -> FALSE
\* left with a D2 session, which is told so
Leave8 == pc[1] = "dclose" /\ Link = "d2" /\ At8(<<"8stop", <<"8left", pc[2]>>>>) /\ UNCHANGED <<acc, v8>>
Left8(was) ==
  /\ pc[1] = "8left" /\ exp = "" /\ was = 1 /\ st' = Idle /\ UNCHANGED <<cfg, dbg, menu, v8>> /\ Fresh
  /\ IF pc[2] THEN pc' = <<"exit">> /\ UNCHANGED exp ELSE Done("")
-----------------------------------------------------------------------------
(* exchanges *)
Dflt(a, b) == IF a = 0 THEN b ELSE a
Blk(s, b) == <<Len(b) + 2, s>> \o b \o <<3>>
Tx8(b, rc) ==
  /\ exp = "" /\ rc = 0 /\ Fresh
  /\ CASE pc[1] = "8req" -> b = S8!Frame(Dflt(pc[2][1], Tgt), Dflt(pc[2][2], st.p.src), pc[3]) /\ At8(pc[4]) /\ UNCHANGED v8
       [] pc[1] = "8era" -> b = S8!Frame(Tgt, st.p.src, <<175, 1>>) /\ At8(<<"8erx", pc[2]>>) /\ UNCHANGED v8
       [] pc[1] = "8stop" -> b = S8!Frame(Tgt, st.p.src, <<160>>) /\ At8(<<"8stopped", pc[2]>>) /\ UNCHANGED v8
       [] pc[1] = "8kkb" -> Len(Bytes) = 2 /\ b = <<Not8(Bytes[2])>> /\ At8(<<"8kans", <<"8kid", Bytes>>>>) /\ v8' = [v8 EXCEPT !.tel = <<>>, !.nac = 0]
       [] pc[1] = "8kreq" -> b = Blk(v8.ks, pc[2]) /\ At8(<<"8kans", pc[3]>>) /\ v8' = [v8 EXCEPT !.km = FALSE, !.tel = <<>>, !.nac = 0]
       [] pc[1] = "8kack" -> b = Blk(v8.ks, <<9>>) /\ At8(<<"8kans", pc[2]>>) /\ v8' = [v8 EXCEPT !.km = FALSE]
       [] OTHER -> FALSE
Notice(b, sid) == IF Len(b) < 5 THEN FALSE ELSE S8!Busy(b, sid)
LastBusy(sid) == IF acc = <<>> THEN FALSE ELSE Notice(acc[Len(acc)], sid)
Sid == CASE pc[1] = "8ans" -> S8!Request(pc[2])[1] [] pc[1] = "8erx" -> 175 [] pc[1] = "8stopped" -> 160 [] OTHER -> -1
In8(b) ==
  /\ exp = "" /\ acc' = Append(acc, b) /\ UNCHANGED <<cfg, dbg, st, pc, exp, menu, v8>>
  /\ CASE pc[1] \in {"8ans", "8erx", "8stopped"} -> acc = <<>> \/ LastBusy(Sid)
       [] pc[1] \in {"8raw", "8more", "8kans"} -> acc = <<>>
       [] pc[1] = "8kkb" -> TRUE
       [] OTHER -> FALSE
\* how a D2 request ended: rc and payload
Answer == IF acc = <<>> THEN [rc |-> -8, m |-> <<>>] ELSE IF LastBusy(Sid) THEN [rc |-> -8, m |-> <<>>] ELSE LET b == acc[Len(acc)] IN IF Len(b) < 5 THEN [rc |-> -20, m |-> <<>>] ELSE [rc |-> 0, m |-> S8!Payload(b)]
Then8(x) == pc' = x /\ UNCHANGED <<cfg, dbg, st, menu, v8>> /\ Fresh
Eval8 ==
  /\ pc[1] \in {"8ans", "8more", "8erx", "8stopped", "8raw"}
  /\ LET r == Answer IN
     CASE pc[1] = "8ans" -> LET c == pc[2]  d == S8!Data(c, r.m) IN
            IF r.rc < 0 THEN Then8(<<"8res", pc[3], r.rc, <<>>>>) /\ UNCHANGED exp
            ELSE IF ~S8!Positive(c, r.m) THEN Then8(<<"8res", pc[3], -32, <<>>>>) /\ UNCHANGED exp
            ELSE IF c.f \in {"dtclist", "cleardtc"} /\ Len(r.m) = 14 THEN Then8(<<"8more", c, pc[3], d>>) /\ UNCHANGED exp
            ELSE IF c.f = "cleardtc" /\ d # <<>> THEN Then8(<<"8era", pc[3]>>) /\ UNCHANGED exp
            ELSE Then8(<<"8res", pc[3], Len(d), d>>) /\ UNCHANGED exp
       [] pc[1] = "8more" -> Say("Warning: retrieving only first 12 DTCs\n") /\ Then8(IF pc[2].f = "cleardtc" THEN <<"8era", pc[3]>> ELSE <<"8res", pc[3], Len(pc[4]), pc[4]>>)
       [] pc[1] = "8erx" -> Then8(<<"8res", pc[2], IF r.rc < 0 THEN r.rc ELSE IF r.m = <<239, 1>> THEN 1 ELSE -32, <<>>>>) /\ UNCHANGED exp
       [] pc[1] = "8stopped" -> (IF r.rc < 0 THEN Say("StopDiagnosticSession request failed, waiting for session to time out.\n") ELSE UNCHANGED exp) /\ Then8(pc[2])
       [] pc[1] = "8raw" -> LET b == acc[1]  bad == Len(b) < 5 IN Then8(<<"w8">>)
            /\ Say(IF acc = <<>> THEN "No data received\n" ELSE IF Len(acc[1]) < 5 THEN "sendreq: failed error -20\n" ELSE
                   "msg 00 src=0x" \o Hex2(acc[1][3]) \o " dest=0x" \o Hex2(acc[1][2]) \o "\nmsg 00 data: " \o Dump(S8!Payload(acc[1])) \o "\n")
       [] OTHER -> FALSE
-----------------------------------------------------------------------------
(* KWP71: blocks, each answered by a block; an answer ends with an ACK        *)
KEnd(w, rc, tel) ==            \* an answer is complete, or has failed (rc < 0)
  CASE w[1] = "8kid" -> IF rc < 0 THEN Fail8 ELSE IF w[2] # <<171, 2>> THEN Fail8 ELSE <<"8kest", tel>>
    [] w[1] = "8kraw" -> <<"8kraw", rc, tel>>
    [] OTHER -> <<"8kres", w[2], w[3], w[4], rc, tel>>
KEval8 ==
  /\ pc[1] = "8kans" /\ UNCHANGED <<cfg, dbg, st, menu, exp>> /\ Fresh
  /\ IF acc = <<>> THEN v8' = v8 /\ pc' = KEnd(pc[2], -8, <<>>)
     ELSE LET b == acc[1]  bad == IF Len(b) < 4 THEN TRUE ELSE b[1] < 3 \/ Len(b) < b[1] + 1 IN
       IF bad THEN v8' = v8 /\ pc' = KEnd(pc[2], -18, <<>>)
       ELSE LET m == [type |-> b[3], b |-> SubSeq(b, 4, b[1])]  n == [v8 EXCEPT !.km = TRUE, !.ks = (b[2] + 1) % 256] IN
         IF v8.tel = <<>> /\ m.type \in {9, 10} THEN v8' = n /\ pc' = KEnd(pc[2], 0, <<m>>)
         ELSE IF m.type = 9 THEN v8' = n /\ pc' = KEnd(pc[2], 0, v8.tel)
         \* a refused acknowledgement is repeated, four times
         ELSE IF m.type = 10 THEN v8' = [n EXCEPT !.nac = @ + 1] /\ pc' = (IF v8.nac = 4 THEN KEnd(pc[2], -32, <<>>) ELSE <<"8kack", pc[2]>>)
         ELSE v8' = [n EXCEPT !.tel = Append(@, m), !.nac = 0] /\ pc' = <<"8kack", pc[2]>>
KEst8 == pc[1] = "8kest" /\ v8' = [v8 EXCEPT !.id = pc[2]] /\ pc' = <<"8est", 16>> /\ UNCHANGED <<cfg, dbg, st, exp, acc, menu>>
KMsgs(tel) == Texts(LAMBDA i : LET k == "msg " \o (IF i < 11 THEN "0" ELSE "") \o I(i - 1) IN k \o " src=0x00 dest=0x00\n" \o k \o " data: " \o Dump(tel[i].b) \o "\n", Len(tel))
KRes8 ==
  /\ pc[1] \in {"8kres", "8kraw"} /\ Len(pc) > 1 /\ UNCHANGED <<cfg, dbg, st, acc, menu>>
  /\ IF pc[1] = "8kraw" THEN pc' = <<"w8">> /\ v8' = v8 /\ Say(CASE pc[2] = -8 -> "No data received\n" [] pc[2] < 0 -> "sendreq: failed error " \o I(pc[2]) \o "\n" [] OTHER -> KMsgs(pc[3]))
     ELSE LET c == pc[2]  h == pc[3]  rc == pc[5]  m == pc[6][1]
              codes == K8!Codes(m)  again == IF rc < 0 THEN FALSE ELSE m.type = 10 /\ m.b # <<>> /\ Take(m.b, 1) = <<(v8.ks + 254) % 256>> IN
       IF rc < 0 THEN pc' = <<"8res", h, rc, <<>>>> /\ UNCHANGED <<v8, exp>>
       ELSE IF again THEN UNCHANGED exp /\ v8' = [v8 EXCEPT !.rep = @ + 1] /\ pc' = (IF v8.rep = 4 THEN <<"8res", h, -32, <<>>>> ELSE <<"8kreq", pc[4], <<"8kres", c, h, pc[4]>>>>)
       ELSE IF c.f = "kerase" THEN pc' = <<"8res", h, IF m.type = 9 THEN 1 ELSE -32, <<>>>> /\ UNCHANGED <<v8, exp>>
       ELSE IF ~K8!Fits(c, m) THEN pc' = <<"8res", h, -32, <<>>>> /\ UNCHANGED <<v8, exp>>
       ELSE IF c.f \in {"dtclist", "cleardtc"} THEN
            /\ (IF Len(pc[6]) > 1 THEN Say("Warning: retrieving only first " \o I(Len(codes) \div 5) \o " DTCs\n") ELSE UNCHANGED exp) /\ v8' = [v8 EXCEPT !.rep = 0]
            /\ pc' = (IF c.f = "cleardtc" /\ codes # <<>> THEN <<"8kreq", <<5>>, <<"8kres", [c EXCEPT !.f = "kerase"], h, <<5>>>>>> ELSE <<"8res", h, Len(codes), codes>>)
       ELSE pc' = <<"8res", h, Len(m.b), m.b>> /\ UNCHANGED <<v8, exp>>
-----------------------------------------------------------------------------
(* what is done with the answer: h; rc < 0: there is none; d: its bytes       *)
Res8 ==
  /\ pc[1] = "8res" /\ UNCHANGED <<cfg, dbg, st, acc, menu>> /\ pc' = <<"w8">>
  /\ LET h == pc[2]  rc == pc[3]  d == pc[4]
         End(x) == Say(x) /\ v8' = [v8 EXCEPT !.q = <<>>, !.live = FALSE]        \* the command is abandoned
         Put(x) == Say(x) /\ UNCHANGED v8
         Lines(p, rs, q) == Say(p \o Rows(rs)) /\ v8' = [v8 EXCEPT !.ln = @ + Len(rs), !.q = q] IN
     CASE h.w = "none" -> Put("")
       [] h.w = "ping" -> Put(IF rc >= 0 THEN "Pong!\n" ELSE "Ping failed.\n")
       [] h.w = "item" -> IF rc < 0 THEN End("Error reading " \o Hex2(h.it.a) \o "\n") ELSE Lines(IF h.it.ns = 6 THEN Code(Tgt, h.it.a) \o "  " ELSE "", ItemRows(h.it.ns, h.it.a, d), v8.q)
       [] h.w = "mem" -> LET n == MinI(h.it.n, 8) IN
            IF rc # n THEN End("Error reading " \o (IF h.it.star THEN "*" ELSE "") \o Hex4(h.it.a) \o "\n")
            ELSE Lines("", MemRows(h.it.a, d), (IF h.it.n > 8 THEN <<ItemStep([h.it EXCEPT !.a = @ + 8, !.n = @ - 8])>> ELSE <<>>) \o v8.q)
       [] h.w = "id" -> IF rc < 0 THEN Put("Couldn't read identification.\n")
            ELSE Say(IdText(d).x) /\ v8' = [v8 EXCEPT !.q = (IF IdText(d).ok /\ Tgt = 122 THEN <<Ask(Call("read", 5, 1, 15, 0), H("id2"))>> ELSE <<>>) \o @]
       [] h.w = "id2" -> Put(IF rc < 0 THEN "" ELSE Id2Text(d))
       [] h.w = "dtc" -> IF rc < 0 THEN Put("Couldn't retrieve DTCs.\n")
            ELSE /\ v8' = [v8 EXCEPT !.read = TRUE]
                 /\ LET s == Take(d, 12)  cs == IF Link = "kwp" THEN [i \in 1..((Len(s) + 4) \div 5) |-> s[5 * i - 4]] ELSE s IN
                    Say(IF rc = 0 THEN "No stored DTCs.\n" ELSE DtcText(Tgt, cs, h.show, IF Link = "kwp" THEN Len(s) > 5 ELSE Len(s) > 1))
       [] h.w = "frall" -> IF rc < 0 THEN Put("Couldn't retrieve DTCs.\n") ELSE IF rc = 0 THEN Put("No stored DTCs.\n")
            ELSE Say("") /\ v8' = [v8 EXCEPT !.q = <<[k |-> "drain"]>> \o ItemSteps([i \in DOMAIN Take(d, 12) |-> Item(6, d[i])])]
       [] h.w = "clear" -> Put(CASE rc = 0 -> "No DTCs to clear!\n" [] rc > 0 -> "Done\n" [] OTHER -> "Failed\n")
       [] h.w = "old" -> Say("") /\ v8' = [v8 EXCEPT !.old = rc >= 0]
       [] h.w = "srl" -> Put(IF rc >= 0 THEN "Done\n" ELSE IF rc = -8 /\ v8.old THEN "Probably done\n" ELSE "Failed\n")
       [] h.w = "fan" -> Put(IF rc >= 0 THEN "Activating engine cooling fan.\n" ELSE "Unable to activate fan.\n")
       [] h.w = "dump" -> LET ok == rc = 8  nx == IF h.fast /\ ~ok /\ h.a + 8 < 61440 THEN 61440 ELSE h.a + 8 IN
            /\ Say((IF h.a % 32 = 0 THEN "\r" \o Hex4(h.a) \o (IF ok THEN " :)" ELSE " :/") ELSE "") \o (IF h.a = 65528 THEN "\rFFF8 :D\n" ELSE ""))
            /\ v8' = [v8 EXCEPT !.file = @ \o (IF ok THEN Row(Hex4(h.a), d) \o "\n" ELSE ""), !.q = IF h.a = 65528 THEN <<>> ELSE <<[k |-> "dump", a |-> nx, fast |-> h.fast]>>]
       [] OTHER -> FALSE
\* printed text may come in several parts
Out8(s) == exp # "" /\ StartsWith(exp, s) /\ exp' = SubSeq(exp, Len(s) + 1, Len(exp)) /\ UNCHANGED <<cfg, dbg, st, pc, acc, menu, v8>>
File8(s) == pc = <<"over">> /\ s = v8.file /\ UNCHANGED vvars
Silent8 == Work8 \/ KbFail8 \/ Est8 \/ Leave8 \/ Eval8 \/ KEval8 \/ KEst8 \/ KRes8 \/ Res8 \/ (Silent /\ UNCHANGED v8)
=============================================================================
