-------------------------------- MODULE Prog --------------------------------
(* The program as its user sees it: settings (C25) and diagnostic sessions    *)
(* (C26), from command lines to what is printed and what the interface is     *)
(* made to do.                                                                *)
EXTENDS Text
VARIABLES cfg, dbg, st, pc, exp, acc, menu, mask
vars == <<cfg, dbg, st, pc, exp, acc, menu, mask>>     \* mask (never changes): the L1 protocols the interface can do
\* cfg: the settings; st: the session; pc: what happens next; exp: text printed since the last event; acc: bursts received since the last transmission
Items0 == [addr |-> 7, delay |-> -5, dbg |-> 1, mode |-> "slow", name |-> "x1"]
Cfg0 == [iface |-> "DUMB", speed |-> 10400, src |-> 241, tgt |-> 51, func |-> TRUE, l1 |-> 1, l2 |-> "ISO9141", init |-> "FAST", eng |-> FALSE, it |-> Items0]
Idle == [s |-> "idle"]
Init0 == cfg = Cfg0 /\ dbg = [k \in {"L0", "L1", "L2", "L3", "CLI"} |-> 0] /\ st = Idle /\ pc = <<"start">> /\ exp = "" /\ acc = <<>> /\ menu = ""
L1s == <<"ISO9141", "ISO14230", "J1850-VPW", "J1850-PWM", "CAN", "", "", "RAW">>
L1Bit == <<1, 2, 4, 8, 16, 32, 64, 128>>
L2s == <<"ISO9141", "CAN", "ISO14230", "MB1", "RAW", "SAEJ1850", "VAG", "D2", "TEST">>
Inits == <<"5BAUD", "FAST", "CARB">>
Ifaces == <<"MOCK", "DUMB", "CARSIM">>
L3s == <<"SAEJ1979", "VAG", "ISO14230">>
ItemNames == <<"addr", "delay", "dbg", "mode", "name">>
Usage == [interface |-> "interface [NAME]\nInterface to use. Use set interface ? to get a list of names", display |-> "display [english/metric]\nEnglish or metric display",
  speed |-> "speed [speed]\nECU communications speed", testerid |-> "testerid [testerid]\nSource ID/address", destaddr |-> "destaddr [destaddr]\nDestination ID/address",
  addrtype |-> "addrtype [func/phys]\nAddress type, physical or functional.", l1protocol |-> "l1protocol [protocolname]\nHardware (L1) protocol to use. Use 'set l1protocol ?' to show valid choices.",
  l2protocol |-> "l2protocol [protocolname]\nSoftware (L2) protocol to use. Use 'set l2protocol ?' to show valid choices.", initmode |-> "initmode [modename]\nBus initialisation mode to use. Use 'set initmode ?' to show valid choices.",
  connect |-> "connect\nConnect to ECU", disconnect |-> "disconnect\nDisconnect from ECU", sendreq |-> "sendreq [byte0 [byte1 [...]]]\nSend raw data to the ECU and print response", sr |-> "sendreq [byte0 [byte1 [...]]]\nSend a command to the ECU and print response",
  addl3 |-> "addl3 [protocol]\nAdd (start) a L3 protocol", probe |-> "probe start_addr [stop_addr]\nScan bus using ISO9141 5 baud init [slow!]", fastprobe |-> "fastprobe start_addr [stop_addr [func]]\nScan bus using ISO14230 fast init with physical or functional addressing"]
-----------------------------------------------------------------------------
Prompt == IF menu = "" THEN "freediag> " ELSE "freediag/" \o menu \o "> "
Say(x) == exp' = exp \o x
\* a command is over: the text it printed, and the next prompt
Done(x) == pc' = <<"read">> /\ Say(x \o Prompt)
Use(x, c) == Done(x \o "Usage: " \o Usage[c] \o "\n")
Keep(v) == UNCHANGED v
NoState == UNCHANGED <<cfg, dbg, st, acc, menu>>
-----------------------------------------------------------------------------
(* settings *)
ShowSpeed == "Connect speed: " \o ToString(cfg.speed) \o "\n"
ItemText(it, n) == CASE n = "addr" -> "0x" \o Hex2(it.addr) [] n = "delay" -> PadL(ToString(it.delay), 7) [] n = "dbg" -> ToString(it.dbg) [] n = "mode" -> it.mode [] OTHER -> it.name
Show(c, k) ==
  CASE k = "interface" -> "interface: using " \o c.iface \o "\n" [] k = "speed" -> "Connect speed: " \o ToString(c.speed) \o "\n"
    [] k = "display" -> "display: " \o (IF c.eng THEN "english" ELSE "metric") \o " units\n" [] k = "testerid" -> "testerid: using 0x" \o Hex2(c.src) \o "\n"
    [] k = "addrtype" -> "addrtype: " \o (IF c.func THEN "functional" ELSE "physical") \o " addressing\n" [] k = "destaddr" -> "destaddr: using 0x" \o Hex2(c.tgt) \o "\n"
    [] k = "l1protocol" -> "l1protocol: Layer 1 (H/W) protocol to use " \o L1s[CHOOSE i \in 1..8 : L1Bit[i] = c.l1] \o "\n"
    [] k = "l2protocol" -> "l2protocol: Layer 2 protocol to use " \o c.l2 \o "\n" [] OTHER -> "initmode: Initmode to use with above protocol is " \o c.init \o "\n"
ShowAll(c) == Show(c, "interface") \o Show(c, "speed") \o Show(c, "display") \o Show(c, "testerid") \o Show(c, "addrtype") \o Show(c, "destaddr") \o Show(c, "l1protocol") \o Show(c, "l2protocol") \o Show(c, "initmode")
  \o (IF c.iface = "CARSIM" THEN "L0 options:\n\tsimfile=FILE\n" ELSE "L0 options:\n" \o Join([i \in 1..5 |-> "\t" \o ItemNames[i] \o "=" \o ItemText(c.it, ItemNames[i])], "\n"))
\* a setting takes the value v: it is shown or not
Set(c, x) == cfg' = c /\ UNCHANGED <<dbg, st, acc, menu>> /\ Done(x)
Reject(x) == NoState /\ Done(x)
NameSet(k, names, w, f(_), what, list) ==
  IF w = "?" THEN NoState /\ Use(list \o Join(SelectSeq(names, LAMBDA n : n # ""), " ") \o "\n", k)
  ELSE LET i == Among(names, w) IN IF i # 0 THEN Set(f(i), "") ELSE Reject(what)
SetItem(n, a, as) ==
  IF as = <<>> THEN Reject(a \o ": " \o ItemText(cfg.it, n) \o "\n")
  ELSE LET v == as[1] k == Num(v) S(it) == Set([cfg EXCEPT !.it = it], n \o " set to: " \o ItemText(it, n) \o "\n") IN
  CASE v = "?" -> Reject((IF n = "mode" THEN "Speed mode" ELSE IF n = "name" THEN "Some name" ELSE n) \o "\nAvailable options:\n")
    [] n = "mode" -> S([cfg.it EXCEPT !.mode = v]) [] n = "name" -> S([cfg.it EXCEPT !.name = v])
    [] ~k.ok -> Reject(n \o ": invalid number " \o v \o "\n")
    [] n = "addr" -> IF k.v \in 0..255 THEN S([cfg.it EXCEPT !.addr = k.v]) ELSE Reject(n \o ": must be between 0 and 0xff\n")
    [] n = "dbg" -> IF k.v \in 0..1 THEN S([cfg.it EXCEPT !.dbg = k.v]) ELSE Reject(n \o ": must be 0 or 1\n")
    [] OTHER -> S([cfg.it EXCEPT !.delay = k.v])
DoSet(c, as) ==
  LET n == Len(as) v == IF n > 0 THEN as[1] ELSE ""
      q == v # "" /\ Ch(v, 1) = "?" IN
  CASE Same(c, "show") -> Reject(ShowAll(cfg))
    [] Same(c, "interface") ->
         IF n = 0 THEN Reject(Show(cfg, "interface")) ELSE IF n > 1 THEN NoState /\ Use("Too many arguments !\n", "interface")
         ELSE IF st # Idle THEN Reject("Error : L0 busy or connected; please disconnect first\n")
         ELSE IF v = "?" THEN NoState /\ Use("Valid interface names (not case sensitive): \n\t" \o Join(Ifaces, " ") \o "\n", "interface")
         ELSE IF Among(Ifaces, v) = 0 THEN Reject("interface: invalid interface " \o v \o "\ninterface: use \"set interface ?\" to see list of names\n")
         ELSE LET f == Ifaces[Among(Ifaces, v)] IN
              /\ cfg' = [cfg EXCEPT !.iface = f, !.it = Items0] /\ UNCHANGED <<dbg, st, acc, menu>> /\ Say("interface is now " \o f \o "\n")
              /\ pc' = IF cfg.iface = "CARSIM" THEN <<"ifnew", f>> ELSE <<"ifclose", f>>
    [] Same(c, "display") -> IF n = 0 THEN Reject(Show(cfg, "display")) ELSE IF Same(v, "english") THEN Set([cfg EXCEPT !.eng = TRUE], "") ELSE IF Same(v, "metric") THEN Set([cfg EXCEPT !.eng = FALSE], "") ELSE NoState /\ Use("", "display")
    [] Same(c, "speed") -> IF n = 0 THEN Reject(Show(cfg, "speed")) ELSE IF v = "?" THEN NoState /\ Use("", "speed")
         ELSE IF InRange(v, 1, MaxInt) THEN LET d == [cfg EXCEPT !.speed = Num(v).v] IN Set(d, Show(d, "speed")) ELSE Reject("speed: must be a positive number\n")
    [] Same(c, "testerid") -> IF n = 0 THEN Reject(Show(cfg, "testerid")) ELSE IF q THEN NoState /\ Use("", "testerid")
         ELSE IF InRange(v, 0, 255) THEN LET d == [cfg EXCEPT !.src = Num(v).v] IN Set(d, Show(d, "testerid")) ELSE Reject("testerid: must be between 0 and 0xff\n")
    [] Same(c, "destaddr") -> IF n = 0 THEN Reject(Show(cfg, "destaddr")) ELSE IF q THEN NoState /\ Use("", "destaddr")
         ELSE IF InRange(v, 0, 255) THEN LET d == [cfg EXCEPT !.tgt = Num(v).v] IN Set(d, Show(d, "destaddr")) ELSE Reject("destaddr: must be between 0 and 0xff\n")
    [] Same(c, "addrtype") -> IF n = 0 THEN Reject(Show(cfg, "addrtype")) ELSE IF StartsWith(v, "func") THEN Set([cfg EXCEPT !.func = TRUE], "") ELSE IF StartsWith(v, "phys") THEN Set([cfg EXCEPT !.func = FALSE], "") ELSE NoState /\ Use("", "addrtype")
    [] Same(c, "l1protocol") -> IF n = 0 THEN Reject(Show(cfg, "l1protocol"))
         ELSE NameSet("l1protocol", L1s, v, LAMBDA i : [cfg EXCEPT !.l1 = L1Bit[i]], "L1protocol: invalid protocol " \o v \o "\nl1protocol: use \"set l1protocol ?\" to see list of protocols\n", "L1 protocol: valid names are ")
    [] Same(c, "l2protocol") -> IF n = 0 THEN Reject(Show(cfg, "l2protocol"))
         ELSE NameSet("l2protocol", L2s, v, LAMBDA i : [cfg EXCEPT !.l2 = L2s[i]], "l2protocol: invalid protocol " \o v \o "\nl2protocol: use \"set l2protocol ?\" to see list of protocols\n", "L2 protocol: valid names are ")
    [] Same(c, "initmode") -> IF n = 0 THEN Reject(Show(cfg, "initmode"))
         ELSE NameSet("initmode", Inits, v, LAMBDA i : [cfg EXCEPT !.init = Inits[i]], "initmode: invalid mode " \o v \o "\ninitmode: use \"set initmode ?\" to see list of initmodes\n", "")
    [] OTHER -> LET i == Among(ItemNames, c) IN
         IF c = "?" \/ Same(c, "help") THEN FALSE       \* listings are left to C24
         ELSE IF cfg.iface = "CARSIM" THEN FALSE
         ELSE IF i = 0 THEN Reject("No such item !\n") ELSE SetItem(ItemNames[i], c, as)
IfClose == pc[1] = "ifclose" /\ exp = "" /\ pc' = <<"ifdel", pc[2]>> /\ UNCHANGED <<exp>> /\ NoState
IfDel == pc[1] = "ifdel" /\ exp = "" /\ NoState /\ IF pc[2] = "CARSIM" THEN pc' = <<"read">> /\ Say(Prompt) ELSE pc' = <<"ifnew", pc[2]>> /\ UNCHANGED exp
IfNew(n) == pc[1] = "ifnew" /\ exp = "" /\ n = pc[2] /\ pc' = <<"read">> /\ Say(Prompt) /\ NoState
\* choosing the simulator after itself has no visible steps
IfSim == pc[1] = "ifnew" /\ pc[2] = "CARSIM" /\ pc' = <<"read">> /\ Say(Prompt) /\ NoState
-----------------------------------------------------------------------------
(* debug levels *)
Flags == <<"OPEN", "CLOSE", "READ", "WRITE", "IOCTL", "PROTO", "INIT", "DATA", "TIMER">>
FlagBit == <<1, 2, 4, 8, 16, 32, 64, 128, 256>>
RECURSIVE FlagsFrom(_, _)
FlagsFrom(v, i) == IF i > 9 THEN "" ELSE (IF ((v % 512) & FlagBit[i]) # 0 THEN Flags[i] \o " " ELSE "") \o FlagsFrom(v, i + 1)
Levels(d) == "Debug values: L0 0x" \o HexS(d["L0"]) \o ", L1 0x" \o HexS(d["L1"]) \o ", L2 0x" \o HexS(d["L2"]) \o " L3 0x" \o HexS(d["L3"]) \o " CLI 0x" \o HexS(d["CLI"]) \o "\n"
DbgNames == <<"L0", "L1", "L2", "L3", "CLI">>
DoDebug(c, as) ==
  LET n == Len(as) v == IF n > 0 THEN as[1] ELSE "?" ask == Ch(v, 1) = "?" k == Num(v) i == Among(DbgNames, c) IN
  CASE Same(c, "show") -> Reject(Levels(dbg))
    [] Same(c, "all") -> IF ~ask /\ ~k.ok THEN Reject("invalid number " \o v \o "\n")
         ELSE LET d == IF ask THEN dbg ELSE [x \in DOMAIN dbg |-> k.v] IN dbg' = d /\ UNCHANGED <<cfg, st, acc, menu>> /\ Done(Levels(d))
    [] i # 0 -> IF n = 1 /\ ~ask /\ ~k.ok THEN Reject("invalid number " \o v \o "\n")
         ELSE LET d == IF n = 1 /\ ~ask THEN [dbg EXCEPT ![DbgNames[i]] = k.v] ELSE dbg  w == d[DbgNames[i]] IN
              dbg' = d /\ UNCHANGED <<cfg, st, acc, menu>> /\ Done(DbgNames[i] \o " debug is 0x" \o HexS(w) \o ": " \o FlagsFrom(w, 1) \o "\n")
    [] OTHER -> Reject("Unrecognized command. Try \"help\"\n")
-----------------------------------------------------------------------------
(* the conversation that opens a session with parameters p; who asked for it  *)
Frame(p, dst, src, b) ==
  CASE p.l2 = "SAEJ1850" -> <<IF p.l1 = 8 THEN 97 ELSE 104, p.tgt, p.src>> \o b
    [] p.l2 = "ISO9141" -> <<104, 106, p.src>> \o b
    [] p.l2 = "ISO14230" -> <<(IF p.func THEN 192 ELSE 128) + Len(b), IF dst = 0 THEN p.tgt ELSE dst, IF src = 0 THEN p.src ELSE src>> \o b
    [] OTHER -> b
Bytes == FlattenB(acc)
Fresh == acc' = <<>>
Go(x) == pc' = x /\ UNCHANGED <<cfg, dbg, st, exp, menu>> /\ UNCHANGED acc
GoFresh(x) == pc' = x /\ UNCHANGED <<cfg, dbg, st, exp, menu>> /\ Fresh
Failed == "\nConnection to ECU failed\nPlease check :\n\tAdapter is connected to PC\n\tCable is connected to Vehicle\n\tVehicle is switched on\n"
Pars(l2, init, func, tgt, l1) == [l2 |-> l2, init |-> init, func |-> func, tgt |-> tgt, src |-> cfg.src, l1 |-> l1]
Connect == [w |-> "connect"]
Supported(l1) == (mask & l1) # 0
\* opening the interface
Open(who, l1, p) == IF Supported(l1) THEN pc' = <<"open", who, l1, p>> /\ UNCHANGED exp ELSE pc' = <<"noopen", who, l1, -5>> /\ UNCHANGED exp
L0Open(proto, rc) ==
  /\ pc[1] = "open" /\ exp = "" /\ proto = pc[3] /\ UNCHANGED <<cfg, dbg, st, menu>> /\ Fresh
  /\ IF rc = 0 THEN IF pc[2].w # "probe" THEN pc' = <<"conv", pc[2], pc[4]>> /\ UNCHANGED exp
                    ELSE pc' = <<"conv", pc[2], pc[4]>> /\ Say("Scanning:\n\t0x" \o HexU(pc[2].i) \o " ")
     ELSE pc' = <<"noopen", pc[2], pc[3], rc>> /\ UNCHANGED exp
NoOpen ==
  /\ pc[1] = "noopen" /\ pc[2].w # "scan" /\ NoState
  /\ LET rc == pc[4] IN
     IF pc[2].w = "connect" THEN Done("l2_generic_start: open failed for protocol " \o ToString(pc[3]) \o " on " \o cfg.iface \o "\n" \o Failed)
     ELSE Done("Failed to open hardware interface, error 0x" \o HexS(rc) \o (IF rc = -5 THEN ", does not support requested L1 protocol\n" ELSE IF rc = -7 THEN ", adapter probably not connected\n" ELSE "\n"))
Serial == {"RAW", "ISO9141", "ISO14230", "VAG", "MB1"}
Slow(p) == p.l2 \in {"VAG", "MB1"} \/ p.init = "5BAUD"
Fail(who) == CASE who.w = "connect" -> <<"close", Failed>> [] who.w = "probe" -> <<"next", who>> [] OTHER -> <<"sclose", who.i>>
Conv ==
  /\ pc[1] = "conv"
  /\ LET who == pc[2] p == pc[3] IN
     CASE p.l2 \in Serial -> Go(<<"speed", who, p>>)
       [] p.l2 \in {"SAEJ1850", "TEST"} -> Go(<<"est", who, p, <<0, 0>>>>)
       [] p.l2 = "D2" -> pc' = Fail(who) /\ NoState /\ Say("Can't do D2 over K-line on this L0 interface yet, sorry.\n")
       [] OTHER -> Go(Fail(who))
Speed(v, db, sb, par) ==
  /\ pc[1] = "speed" /\ exp = "" /\ v = cfg.speed /\ db = 8 /\ sb = 1 /\ par = 3
  /\ LET who == pc[2] p == pc[3] IN
     IF p.l2 = "RAW" THEN Go(<<"est", who, p, <<0, 0>>>>)
     ELSE IF Slow(p) \/ (p.l2 = "ISO14230" /\ p.init = "FAST") THEN Go(<<"ib", who, p>>)
     ELSE Go(Fail(who))
InitBus(type, addr, tester, phys, rc) ==
  /\ pc[1] = "ib" /\ exp = ""
  /\ LET who == pc[2] p == pc[3] IN
     /\ addr = p.tgt /\ type = (IF Slow(p) THEN 2 ELSE 1) /\ (~Slow(p) => tester = p.src)
     /\ IF rc < 0 THEN GoFresh(Fail(who)) ELSE GoFresh(IF Slow(p) THEN <<"kb", who, p>> ELSE <<"ftx", who, p>>)
KbOk(p) == LET k == Bytes IN CASE p.l2 = "ISO9141" -> k \in {<<8, 8>>, <<148, 148>>} [] p.l2 = "ISO14230" -> acc # <<>> /\ Len(acc[1]) >= 2 [] OTHER -> FALSE
KbDone == pc[1] = "kb" /\ ~KbOk(pc[3]) /\ GoFresh(Fail(pc[2]))
\* silently chosen: the answer to the last step is complete
AckDone == pc[1] = "ack" /\ LET p == pc[3] IN IF acc # <<>> /\ acc[1] # <<>> /\ acc[1][1] = Not8(p.tgt) THEN GoFresh(<<"est", pc[2], p, pc[4]>>) ELSE GoFresh(Fail(pc[2]))
Pay(b) == SubSeq(b, 4, Len(b))
StartAns == SelectSeq(acc, LAMBDA b : Len(b) >= 4 /\ b[4] = 193)
FastDone == pc[1] = "frx" /\ IF acc # <<>> /\ Len(acc[1]) = 6 /\ acc[1][4] = 193 THEN GoFresh(<<"est", pc[2], pc[3], <<acc[1][5], acc[1][6]>>>>) ELSE GoFresh(Fail(pc[2]))
\* the session is established
Established ==
  /\ pc[1] = "est" /\ pc[2].w # "scan" /\ UNCHANGED <<cfg, dbg, menu>> /\ Fresh
  /\ st' = [s |-> "conn", p |-> pc[3], kb |-> pc[4], l3 |-> ""]
  /\ IF pc[2].w = "connect" THEN Done("Connection to ECU established!\n")
     ELSE pc' = <<"peek", pc[2].fast>> /\ Say(" connected !!\n" \o (IF pc[2].fast THEN "Keybytes" ELSE "received") \o ": 0x" \o HexU(pc[4][1]) \o " 0x" \o HexU(pc[4][2]) \o "\n")
ProbePars(i, w) == IF w.fast THEN Pars("ISO14230", "FAST", w.func, i, 1) ELSE Pars("ISO9141", "5BAUD", FALSE, i, 1)
\* the next address of a probe, or the end of it
NextProbe ==
  /\ pc[1] = "next" /\ NoState
  /\ LET w == pc[2] IN
     IF w.i = w.last THEN pc' = <<"close", "\n">> /\ UNCHANGED exp
     ELSE pc' = <<"conv", [w EXCEPT !.i = @ + 1], ProbePars(w.i + 1, w)>> /\ Say("\t0x" \o HexU(w.i + 1) \o " ")
L0Close(was) ==
  /\ exp = ""
  /\ CASE pc[1] = "ifclose" -> was = 0 /\ IfClose
       [] pc[1] = "close" -> was = 1 /\ NoState /\ Done(pc[2])
       [] pc[1] = "dclose" -> was = 1 /\ st' = Idle /\ UNCHANGED <<cfg, dbg, menu>> /\ Fresh /\ (IF pc[2] THEN pc' = <<"exit">> /\ UNCHANGED exp ELSE Done(""))
       [] OTHER -> FALSE
-----------------------------------------------------------------------------
(* commands of the diagnostic menu *)
ByteArgs(as) == \A i \in DOMAIN as : InRange(as[i], 0, 255)
FirstBad(as) == as[CHOOSE i \in DOMAIN as : ~InRange(as[i], 0, 255) /\ \A j \in 1..(i - 1) : InRange(as[j], 0, 255)]
NotConn == Reject("Not connected to ECU\n")
Leave(exit) == IF st = Idle THEN (IF exit THEN pc' = <<"exit">> /\ UNCHANGED exp ELSE Done("")) ELSE pc' = (IF st.p.l2 = "ISO14230" THEN <<"stop", exit>> ELSE <<"dclose", exit>>) /\ UNCHANGED exp
DoProbe(c, as, fast) ==
  LET a == Num(as[1]) b == IF Len(as) > 1 THEN Num(as[2]) ELSE a IN
  IF as = <<>> THEN NoState /\ Use("", c) ELSE IF as[1] = "?" THEN NoState /\ Use("", c)
  ELSE IF st # Idle THEN Reject("Cannot probe while there is an active global connection.\n")
  ELSE IF ~a.ok \/ ~b.ok \/ a.v \notin 0..255 \/ b.v \notin 0..255 THEN Reject("Values must be between 0 and 255\n")
  ELSE IF b.v < a.v THEN Reject("Start must not be greater than End address\n")
  ELSE LET w == [w |-> "probe", i |-> a.v, last |-> b.v, fast |-> fast, func |-> Len(as) > 2 /\ Same(as[IF Len(as) > 2 THEN 3 ELSE 1], "func")] IN NoState /\ Open(w, 1, ProbePars(a.v, w))
DoDiag(c, as) ==
  LET n == Len(as) v == IF n > 0 THEN as[1] ELSE "" IN
  CASE Same(c, "connect") -> IF n > 0 THEN NoState /\ Use("", "connect") ELSE IF st # Idle THEN Reject("Already connected !\n")
         ELSE NoState /\ Open(Connect, cfg.l1, Pars(cfg.l2, cfg.init, cfg.func, cfg.tgt, cfg.l1))
    [] Same(c, "disconnect") -> IF n > 0 THEN NoState /\ Use("", "disconnect") ELSE NoState /\ Leave(FALSE)
    [] Same(c, "addl3") -> IF n # 1 THEN NoState /\ Use("", "addl3") ELSE IF v = "?" THEN NoState /\ Use("Valid protocols are: " \o Join(L3s, " ") \o "\n", "addl3")
         ELSE IF st = Idle THEN NotConn ELSE IF st.s # "conn" THEN Reject("L3 protocol already connected\n")
         ELSE IF Among(L3s, v) = 0 THEN Reject("No such protocol, use " \o c \o " ? for list of protocols\n")
         ELSE NoState /\ UNCHANGED exp /\ pc' = <<"l3", L3s[Among(L3s, v)]>>
    [] Same(c, "reml3") -> IF st = Idle \/ st.l3 = "" THEN Reject("No active global L3 connection.\n") ELSE st' = [st EXCEPT !.s = "conn", !.l3 = ""] /\ UNCHANGED <<cfg, dbg, acc, menu>> /\ Done("")
    [] Same(c, "sendreq") \/ Same(c, "sr") -> LET k == IF Same(c, "sr") THEN "sr" ELSE "sendreq" IN
         IF n = 0 THEN NoState /\ Use("Too few arguments\n", k) ELSE IF v = "?" THEN NoState /\ Use("", k)
         ELSE IF st = Idle THEN NotConn ELSE IF ~ByteArgs(as) THEN Reject("Invalid byte " \o FirstBad(as) \o "\n")
         ELSE NoState /\ UNCHANGED exp /\ pc' = <<"sr", [i \in DOMAIN as |-> Num(as[i]).v]>>
    [] Same(c, "read") \/ Same(c, "rx") ->
         IF st = Idle THEN NotConn ELSE IF n > 0 /\ ~InRange(v, 0, MaxInt \div 1000) THEN Reject("Invalid wait time " \o v \o "\n")
         ELSE UNCHANGED <<cfg, dbg, st, menu, exp>> /\ Fresh /\ pc' = <<"rx">>
    [] Same(c, "probe") -> DoProbe("probe", as, FALSE)
    [] Same(c, "fastprobe") -> DoProbe("fastprobe", as, TRUE)
    [] OTHER -> Reject("Unrecognized command. Try \"help\"\n")
\* adding an application layer
AddL3 ==
  /\ pc[1] = "l3" /\ UNCHANGED <<cfg, dbg, acc, menu>>
  /\ CASE pc[2] = "VAG" -> st' = st /\ Done("Failed to add L3 protocol\n")             \* no VAG session is established here
       [] pc[2] = "ISO14230" -> st' = [st EXCEPT !.s = "l3", !.l3 = pc[2]] /\ Done("Done\n")
       [] st.p.l2 = "TEST" -> st' = st /\ Done("Failed to add L3 protocol\n")
       [] OTHER -> st' = st /\ pc' = <<"l3tx">> /\ UNCHANGED exp
L3Done ==
  /\ pc[1] = "l3rx" /\ UNCHANGED <<cfg, dbg, menu>> /\ Fresh
  /\ LET pos == {i \in DOMAIN acc : LET b == IF st.p.l2 = "RAW" THEN acc[i] ELSE Pay(acc[i]) IN b # <<>> /\ b[1] = 65} IN
     \/ pos # {} /\ st' = [st EXCEPT !.s = "l3", !.l3 = "SAEJ1979"] /\ Done("Done\n")
     \/ 1 \notin pos /\ st' = st /\ Done("Failed to add L3 protocol\n")
\* messages as they are printed
Msg1(b) == CASE st.p.l2 = "RAW" -> [s |-> 0, d |-> 0, b |-> b] [] st.p.l2 = "ISO9141" -> [s |-> b[3], d |-> 241, b |-> Pay(b)] [] OTHER -> [s |-> b[3], d |-> b[2], b |-> Pay(b)]
RECURSIVE Printed(_, _)
Printed(ms, i) == IF ms = <<>> THEN "" ELSE LET m == Msg1(Head(ms)) k == "msg " \o (IF i < 10 THEN "0" ELSE "") \o ToString(i) IN
  k \o " src=0x" \o Hex2(m.s) \o " dest=0x" \o Hex2(m.d) \o "\n" \o k \o " data: " \o Dump(m.b) \o "\n" \o Printed(Tail(ms), i + 1)
\* the ISO14230 layer tells what the message means
D == INSTANCE Decode WITH op <- exp
Told(ms) == IF st.l3 # "ISO14230" \/ ms = <<>> THEN "" ELSE "DECODED: " \o D!Resp14230(Msg1(ms[1]).b) \o "\n"       \* (the first of them)
Unframed == st.l3 = "ISO14230" /\ st.p.l2 \in {"RAW", "TEST"}
ReqSrc == IF st.l3 = "SAEJ1979" /\ cfg.src = 0 THEN 241 ELSE cfg.src
Tx(b, rc) ==
  /\ exp = "" /\ Fresh /\ UNCHANGED <<cfg, dbg, st, exp, menu>>
  /\ CASE pc[1] = "kb" -> KbOk(pc[3]) /\ LET k == IF pc[3].l2 = "ISO14230" THEN Take(acc[1], 2) ELSE Bytes IN b = <<Not8(k[2])>> /\ pc' = <<"ack", pc[2], pc[3], k>>
       [] pc[1] = "ftx" -> b = Frame(pc[3], 0, 0, <<129>>) /\ pc' = <<"frx", pc[2], pc[3]>>
       [] pc[1] = "l3tx" -> b = Frame(st.p, 0, 241, <<1, 0>>) /\ pc' = <<"l3rx">>
       [] pc[1] = "sr" -> st.p.l2 # "TEST" /\ b = Frame(st.p, cfg.tgt, ReqSrc, pc[2]) /\ pc' = <<"srx">>
       [] pc[1] = "stop" -> b = Frame(st.p, 0, 0, <<130>>) /\ pc' = <<"stopped", pc[2]>>
       [] OTHER -> FALSE
  /\ rc = 0
In(b) == exp = "" /\ pc[1] \in {"kb", "ack", "frx", "l3rx", "srx", "rx", "stopped", "peek"} /\ acc' = Append(acc, b) /\ UNCHANGED <<cfg, dbg, st, pc, exp, menu>>
SrTest == pc[1] = "sr" /\ st.p.l2 = "TEST" /\ NoState /\ Done("sendreq: failed error " \o (IF st.l3 = "" THEN "-43" ELSE "-5") \o "\n")
SrDone == pc[1] = "srx" /\ UNCHANGED <<cfg, dbg, st, menu>> /\ Fresh /\ Done(IF Unframed THEN "sendreq: failed error -5\n" ELSE IF acc = <<>> THEN "No data received\n" ELSE Told(acc) \o Printed(acc, 0))
RxDone == pc[1] = "rx" /\ UNCHANGED <<cfg, dbg, st, menu>> /\ Fresh /\ Done(IF Unframed THEN "" ELSE Told(acc) \o Printed(acc, 0))
PeekDone == pc[1] = "peek" /\ UNCHANGED <<cfg, dbg, st, menu>> /\ Fresh /\ acc = <<>> /\ Done("")
StopDone == pc[1] = "stopped" /\ pc' = <<"dclose", pc[2]>> /\ UNCHANGED <<cfg, dbg, st, exp, menu>> /\ Fresh
-----------------------------------------------------------------------------
(* lines *)
Menus == {"set", "diag", "debug", "test"}
InMenu(m, c, as) ==
  CASE m = "set" -> DoSet(c, as) [] m = "diag" -> DoDiag(c, as) [] m = "debug" -> DoDebug(c, as)
    [] m = "test" /\ Same(c, "readiness") /\ st = Idle -> NotConn
    [] m = "test" /\ Same(c, "readiness") /\ st.s = "conn" -> Reject("Mode 1 PID 1 request failed\n")
    [] m = "test" /\ \E k \in {"rvi", "cms", "ncms"} : Same(c, k) -> Reject("SCAN has not been done, please do a scan\n")
    [] m = "test" /\ ~(\E k \in {"readiness", "rvi", "cms", "ncms", "help", "?"} : Same(c, k)) -> Reject("Unrecognized command. Try \"help\"\n")
    [] OTHER -> FALSE
Line(s) ==
  /\ pc = <<"read">> /\ exp = ""
  /\ LET w == Words(s) IN
     IF w = <<>> \/ Ch(s, 1) = "#" THEN NoState /\ Done("")
     ELSE IF Same(w[1], "exit") \/ Same(w[1], "quit") THEN NoState /\ Leave(TRUE)
     ELSE IF menu = "" /\ Same(w[1], "up") THEN NoState /\ Done("")
     ELSE IF menu # "" THEN IF Same(w[1], "up") THEN menu' = "" /\ UNCHANGED <<cfg, dbg, st, acc>> /\ pc' = <<"read">> /\ Say("freediag> ") ELSE InMenu(menu, w[1], Tail(w))
     ELSE IF \E m \in Menus : Same(w[1], m) THEN LET m == CHOOSE m \in Menus : Same(w[1], m) IN
       IF Len(w) = 1 THEN menu' = m /\ UNCHANGED <<cfg, dbg, st, acc>> /\ pc' = <<"read">> /\ Say("freediag/" \o m \o "> ") ELSE InMenu(m, w[2], SubSeq(w, 3, Len(w)))
     ELSE IF Same(w[1], "cleardtc") /\ (st = Idle \/ st.s = "conn") THEN NotConn
     ELSE IF Same(w[1], "monitor") THEN Reject("SCAN has not been done, please do a scan\n")
     ELSE IF (Same(w[1], "ecus") \/ Same(w[1], "pids")) THEN Reject("SCAN has not been done, please do a scan\n")
     ELSE IF Same(w[1], "scan") /\ st # Idle /\ st.l3 # "SAEJ1979" THEN Reject(IF st.l3 = "" THEN "Already connected, please disconnect first, or manually add SAEJ1979 L3 layer.\n" ELSE "L3 connection must be SAEJ1979 ! Try disconnecting and running scan again.\n")
     ELSE IF Same(w[1], "watch") /\ Len(w) = 1 /\ st # Idle THEN Reject("L2 already connected, this won't work.\n")
     ELSE Reject("Unrecognized command. Try \"help\"\n")
\* the end of the input ends the menu, then the program
Eof ==
  /\ pc = <<"read">> /\ exp = ""
  /\ IF menu = "" THEN NoState /\ Leave(TRUE) ELSE menu' = "" /\ UNCHANGED <<cfg, dbg, st, acc>> /\ pc' = <<"eof">> /\ Say("freediag> ")
Eof2 == pc = <<"eof">> /\ exp = "" /\ NoState /\ Leave(TRUE)
Exit(rc) == pc = <<"exit">> /\ exp = "" /\ rc = 0 /\ pc' = <<"over">> /\ UNCHANGED <<cfg, dbg, st, exp, acc, menu>>
\* the program has ended: nothing of it is left
Over(open, timer) == pc = <<"over">> /\ open = 0 /\ timer = 0 /\ UNCHANGED vars
Started == pc = <<"start">> /\ pc' = <<"read">> /\ UNCHANGED <<cfg, dbg, st, exp, acc, menu>>
Out(s) == exp # "" /\ exp = s /\ exp' = "" /\ UNCHANGED <<cfg, dbg, st, pc, acc, menu>>
Silent == IfSim \/ Eof2 \/ NoOpen \/ Conv \/ KbDone \/ AckDone \/ FastDone \/ Established \/ NextProbe \/ AddL3 \/ L3Done \/ SrTest \/ SrDone \/ RxDone \/ PeekDone \/ StopDone
=============================================================================
