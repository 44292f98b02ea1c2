----------------------------- MODULE Iso14230 -----------------------------
(* Tester side of an ISO14230 (KWP2000) connection: session start (fast,     *)
(* 5-baud, monitor), transmission, reception, requests with busy / pending / *)
(* negative responses, keepalive and stop.  One action per line event:       *)
(* Call (API entry), Speed, InitBus, Tx (one frame transmitted), In (a burst *)
(* of bytes arrives), Ret (API return).  Times are milliseconds.             *)
EXTENDS VBytes

VARIABLES fl,     \* capability flags of the interface
          conn,   \* <<>> or the connection record
          cur,    \* current API call (record) or <<>>
          ph,     \* phase of the current call
          turn,   \* bursts received since the last transmission / call: <<[t, b]>>
          ntx,    \* frames transmitted in this call
          nbusy,  \* busy notices honoured in this call
          t0,     \* start of the current wait
          tact    \* time of the last successful traffic (keepalive timer)
vars == <<fl, conn, cur, ph, turn, ntx, nbusy, t0, tact>>

Init0(f) == /\ fl = f /\ conn = <<>> /\ cur = <<>> /\ ph = "idle" /\ turn = <<>>
            /\ ntx = 0 /\ nbusy = 0 /\ t0 = 0 /\ tact = 0

Smart == HasBit(fl, F_L2FRAME)
NoHdrs == HasBit(fl, F_NOHDRS)
Strip == HasBit(fl, F_STRIPCK)

-----------------------------------------------------------------------------
(* Frame grammar *)
\* header of byte string b: [ok, h, n, dst, src, func]
NoHdr == [ok |-> FALSE, h |-> 0, n |-> 0, dst |-> 0, src |-> 0, func |-> FALSE]
Header(b, needaddr) ==
  LET f == b[1]  mode == f & 192  l6 == f & 63  long == mode \in {128, 192}
      hl == IF long THEN (IF l6 = 0 THEN 4 ELSE 3) ELSE (IF l6 = 0 THEN 2 ELSE 1)
  IN IF mode = 64 \/ (~long /\ needaddr) \/ Len(b) < hl THEN NoHdr
     ELSE LET n == IF l6 # 0 THEN l6 ELSE b[hl] IN
          IF n = 0 THEN NoHdr
          ELSE [ok |-> TRUE, h |-> hl, n |-> n, dst |-> IF long THEN b[2] ELSE 0,
                src |-> IF long THEN b[3] ELSE 0, func |-> mode = 192]
Fmt(func, bad) == Bit(func, 1) + Bit(bad, 16)
\* one complete frame f with header record hd -> delivered message
Msg(f, hd) == LET body == IF Strip THEN f ELSE Take(f, Len(f) - 1)
                  bad == ~Strip /\ Sum8(body) # f[Len(f)] IN
  [src |-> hd.src, dest |-> hd.dst, b |-> Drop(body, hd.h), fmt |-> Fmt(hd.func, bad)]
Err == [ok |-> FALSE, ms |-> <<>>]
\* a run of bytes from a non-framing interface: possibly several frames
RECURSIVE ParseRun(_, _)
ParseRun(b, needaddr) ==
  IF b = <<>> THEN [ok |-> TRUE, ms |-> <<>>]
  ELSE LET hd == Header(b, needaddr)  tot == hd.h + hd.n + Bit(~Strip, 1) IN
       IF ~hd.ok \/ Len(b) < tot THEN Err
       ELSE LET rest == ParseRun(Drop(b, tot), FALSE) IN
            IF rest.ok THEN [ok |-> TRUE, ms |-> <<Msg(Take(b, tot), hd)>> \o rest.ms] ELSE Err
\* a frame delivered whole by a framing interface
ParseFrame(b, needaddr) ==
  IF NoHdrs THEN
    IF Len(b) < 1 + Bit(~Strip, 1) THEN Err
    ELSE [ok |-> TRUE, ms |-> <<Msg(b, [h |-> 0, n |-> 0, dst |-> 0, src |-> 0, func |-> FALSE])>>]
  ELSE LET hd == Header(b, needaddr) IN
    IF ~hd.ok \/ Len(b) < hd.h + 1 + Bit(~Strip, 1) THEN Err
    ELSE [ok |-> TRUE, ms |-> <<Msg(b, hd)>>]
\* group bursts into runs: consecutive bursts closer than the inter-byte window
\* (or all within the first window w) belong to the same run
RECURSIVE Runs(_, _, _)
Runs(bs, w, start) ==
  IF Len(bs) = 1 THEN <<bs[1].b>>
  ELSE LET r == Runs(Tail(bs), w, start) IN
       IF bs[2].t - bs[1].t <= 20 \/ bs[2].t - start <= w
       THEN <<bs[1].b \o r[1]>> \o Tail(r)
       ELSE <<bs[1].b>> \o r
RECURSIVE ParseAll(_, _)
ParseAll(runs, needaddr) ==
  IF runs = <<>> THEN [ok |-> TRUE, ms |-> <<>>]
  ELSE LET p == IF Smart THEN ParseFrame(runs[1], needaddr) ELSE ParseRun(runs[1], needaddr)
           q == ParseAll(Tail(runs), FALSE) IN
       IF p.ok /\ q.ok THEN [ok |-> TRUE, ms |-> p.ms \o q.ms] ELSE Err
Bursts == [i \in DOMAIN turn |-> turn[i].b]
HasErr == \E i \in DOMAIN turn : turn[i].err # 0
\* everything received in the current wait, as messages
Parsed(w) == IF HasErr THEN Err
             ELSE ParseAll(IF Smart THEN Bursts ELSE Runs(turn, w, t0), conn.first)

-----------------------------------------------------------------------------
(* Transmission *)
\* header forms the key bytes allow: modeflags bits 1 length-in-format,
\* 2 length byte, 4 short header, 8 long header
Carries(md, pay) == Len(pay) >= 1 /\ Len(pay) <= 255 /\
                    (Len(pay) >= 64 => HasBit(md, 2))
LongHdr(md) == HasBit(md, 8) \/ ~HasBit(md, 4)
LenByte(md, pay) == IF HasBit(md, 1) \/ ~HasBit(md, 2) THEN Len(pay) >= 64 ELSE TRUE
Frame(md, func, dst, src, pay) ==
  LET lb == LenByte(md, pay)
      f0 == (IF LongHdr(md) THEN (IF func THEN 192 ELSE 128) ELSE 0) + (IF lb THEN 0 ELSE Len(pay))
      body == <<f0>> \o (IF LongHdr(md) THEN <<dst, src>> ELSE <<>>)
              \o (IF lb THEN <<Len(pay)>> ELSE <<>>) \o pay
  IN body \o (IF HasBit(fl, F_L2CKSUM) THEN <<>> ELSE <<Sum8(body)>>)
TxBytes(c, dst, src, pay) ==
  IF HasBit(fl, F_DATAONLY) THEN pay
  ELSE Frame(c.md, c.func, IF dst = 0 THEN c.tgt ELSE dst, IF src = 0 THEN c.src ELSE src, pay)
CanSend(c, pay) == Len(pay) >= 1 /\ Len(pay) <= 255 /\ (HasBit(fl, F_DATAONLY) \/ Carries(c.md, pay))

\* what the current call transmits
CallPay == CASE cur.op = "start" -> <<129>>
             [] cur.op = "stop" -> <<130>>
             [] cur.op = "l2timer" -> IF conn.j1978 THEN <<1, 0>> ELSE <<62>>
             [] OTHER -> cur.b
CallDst == IF cur.op \in {"send", "req"} THEN cur.mdest ELSE 0
CallSrc == IF cur.op \in {"send", "req"} THEN cur.msrc ELSE 0
ThisTx == TxBytes(conn, CallDst, CallSrc, CallPay)

\* first-byte timeout of the current wait
W == LET base == CASE cur.op = "start" -> 70
                   [] cur.op = "recv" -> cur.w
                   [] cur.op = "l2timer" -> 50
                   [] OTHER -> 60
     IN IF cur.op = "start" /\ Smart THEN 200
        ELSE IF cur.op = "l2timer" /\ Smart THEN 200
        ELSE IF Smart /\ base < 150 THEN base + 100 ELSE base
\* the tester has waited long enough for the ECU's legal response window
Waited(t) == IF HasErr THEN TRUE ELSE IF turn = <<>> THEN t - t0 >= (IF cur.op = "recv" THEN W ELSE 50) - 1 /\ t - t0 <= W + 400
             ELSE t - turn[Len(turn)].t >= 49
NoLate == \A i \in DOMAIN turn : turn[i].t - (IF i = 1 THEN t0 ELSE turn[i-1].t) <= 400

-----------------------------------------------------------------------------
InitMode == cur.fl & 15
Call(c, t) ==
  /\ ph = "idle"
  /\ cur' = c /\ turn' = <<>> /\ ntx' = 0 /\ nbusy' = 0 /\ t0' = t
  /\ UNCHANGED <<fl, tact>>
  /\ CASE c.op = "start" ->
            /\ ph' = "s_speed"
            /\ conn' = [md |-> 0, func |-> HasBit(c.fl, 16), j1978 |-> HasBit(c.fl, 32), tgt |-> c.tgt, src |-> c.src,
                        kb |-> <<0, 0>>, mode |-> c.fl & 15, est |-> FALSE, first |-> FALSE, phys |-> 0]
       [] c.op \in {"send", "req"} -> ph' = (IF conn = <<>> THEN "refuse" ELSE IF CanSend(conn, c.b) THEN "tx" ELSE "refuse") /\ UNCHANGED conn
       [] c.op = "stop" -> ph' = (IF conn = <<>> THEN "refuse" ELSE "tx") /\ UNCHANGED conn
       [] c.op = "recv" -> ph' = (IF conn = <<>> THEN "refuse" ELSE "rx") /\ UNCHANGED conn
       [] c.op = "l2timer" -> ph' = "ka" /\ UNCHANGED conn
       [] OTHER -> ph' = "other" /\ UNCHANGED conn

\* baud rate is set on serial interfaces before anything else happens
WantsSpeed == ~HasBit(fl, F_AUTOSPEED) /\ ~HasBit(fl, F_NOTTY)
Speed(v) ==
  /\ ph = "s_speed" /\ WantsSpeed
  /\ v = (IF cur.br = 0 THEN 10400 ELSE cur.br)
  /\ ph' = "s_init"
  /\ UNCHANGED <<fl, conn, cur, turn, ntx, nbusy, t0, tact>>
ReadyInit == ph = "s_init" \/ (ph = "s_speed" /\ ~WantsSpeed)
\* bus initialisation, only after the bus was left idle for 300 ms
InitBus(type, addr, tester, phys, rc, kb, t) ==
  /\ ReadyInit
  /\ InitMode \in {0, 1}
  /\ type = (IF InitMode = 1 THEN 1 ELSE 2)
  /\ addr = cur.tgt
  /\ InitMode = 1 => tester = cur.src /\ (phys = 1 <=> ~HasBit(cur.fl, 16))
  /\ t - t0 >= 299
  /\ t0' = t
  /\ ph' = CASE rc < 0 -> "s_fail"
             [] rc >= 0 /\ HasBit(fl, F_FULLINIT) -> "s_drain"
             [] rc >= 0 /\ ~HasBit(fl, F_FULLINIT) /\ InitMode = 1 -> "tx"
             [] OTHER -> "s_kb"
  /\ turn' = <<>>
  /\ UNCHANGED <<fl, conn, cur, ntx, nbusy, tact>>

\* transmission of one frame; t is the start of transmission
LastT == IF turn = <<>> THEN t0 ELSE turn[Len(turn)].t
BusyHeads(ms) == IF ms # <<>> /\ Len(ms[1].b) > 2 /\ ms[1].b[1] = 127 /\ ms[1].b[3] = 33 THEN TRUE ELSE FALSE
IsPending(m) == Len(m.b) > 2 /\ m.b[1] = 127 /\ m.b[3] = 120
IsNeg(m) == Len(m.b) >= 1 /\ m.b[1] = 127
RECURSIVE SkipPending(_)
SkipPending(ms) == IF ms # <<>> /\ IsPending(ms[1]) THEN SkipPending(Tail(ms)) ELSE ms
IsReq == cur.op \in {"req", "stop"}
MustResend == /\ ph = "rx" /\ IsReq /\ turn # <<>> /\ nbusy < 3
              /\ LET p == Parsed(W) IN p.ok /\ BusyHeads(SkipPending(p.ms))
Gap(t) == (cur.op # "start" /\ ~HasBit(fl, F_DATAONLY)) => t - LastT >= 54
Tx(b, t, tend) ==
  \/ /\ ph = "tx" /\ b = ThisTx /\ Gap(t)
     /\ ph' = (IF cur.op = "send" THEN "sent" ELSE "rx")
     /\ ntx' = ntx + 1 /\ turn' = <<>> /\ t0' = tend
     /\ UNCHANGED <<fl, conn, cur, nbusy, tact>>
  \/ \* busy-repeat: transmit again
     /\ MustResend /\ Waited(t) /\ b = ThisTx /\ Gap(t)
     /\ ntx' = ntx + 1 /\ nbusy' = nbusy + 1 /\ turn' = <<>> /\ t0' = tend /\ UNCHANGED ph
     /\ UNCHANGED <<fl, conn, cur, tact>>
  \/ \* keepalive
     /\ ph = "ka" /\ conn # <<>> /\ conn.mode # 3 /\ ~HasBit(fl, F_KEEPALIVE)
     /\ t0 - tact > 3333 - 20
     /\ b = ThisTx /\ Gap(t)
     /\ ph' = "kax" /\ ntx' = 1 /\ turn' = <<>> /\ t0' = tend
     /\ UNCHANGED <<fl, conn, cur, nbusy, tact>>
  \/ \* 5-baud: complement of the second key byte
     /\ ph = "s_kb" /\ ~HasBit(fl, F_SLOWINIT)
     /\ LET bs == FlattenB(Bursts) IN Len(bs) = 2 /\ ~HasErr /\ b = <<Not8(bs[2])>>
     /\ conn' = [conn EXCEPT !.kb = <<FlattenB(Bursts)[1] & 127, FlattenB(Bursts)[2]>>]
     /\ ph' = "s_addr" /\ turn' = <<>> /\ t0' = tend
     /\ UNCHANGED <<fl, cur, ntx, nbusy, tact>>
\* the hardware refused the transmission
TxFail(t) ==
  /\ ph \in {"tx", "rx", "ka", "s_kb"}
  /\ ph' = IF cur.op = "start" THEN "s_fail" ELSE IF ph = "ka" THEN "kafail" ELSE "txfail"
  /\ UNCHANGED <<fl, conn, cur, turn, ntx, nbusy, t0, tact>>

In(b, err, t) ==
  /\ ph \in {"rx", "kax", "s_kb", "s_addr", "s_drain", "s_init", "s_speed", "ka"}
  /\ turn' = Append(turn, [t |-> t, b |-> b, err |-> err])
  /\ UNCHANGED <<fl, conn, cur, ph, ntx, nbusy, t0, tact>>

-----------------------------------------------------------------------------
(* Results *)
SameMsgs(ms, rs) == Len(ms) = Len(rs) /\ \A i \in DOMAIN ms :
   ms[i].b = rs[i].b /\ ms[i].src = rs[i].src /\ ms[i].dest = rs[i].dest /\ ms[i].fmt = (rs[i].fmt & 17)
\* result of a request: [null, err ("none"/"timeout"/"refused"/"any"), ms]
ReqOutcome ==
  IF turn = <<>> THEN [null |-> TRUE, err |-> "timeout", ms |-> <<>>]
  ELSE LET p == Parsed(W) IN
    IF ~p.ok THEN [null |-> TRUE, err |-> "any", ms |-> <<>>]
    ELSE LET ms == SkipPending(p.ms) IN
      IF ms = <<>> THEN [null |-> TRUE, err |-> "timeout", ms |-> <<>>]
      ELSE IF BusyHeads(ms) THEN [null |-> TRUE, err |-> "busy", ms |-> <<>>]
      ELSE [null |-> FALSE, err |-> IF IsNeg(ms[1]) THEN "refused" ELSE "none", ms |-> ms]
ErrOk(kind, e) == CASE kind = "timeout" -> e = E_TIMEOUT
                    [] kind = "refused" -> e = E_ECUNO
                    [] kind = "none" -> e = 0
                    [] OTHER -> e < 0
Done(c2, ok, t) == /\ conn' = c2 /\ cur' = <<>> /\ ph' = "idle" /\ turn' = <<>>
                   /\ tact' = (IF ok THEN t ELSE tact)
                   /\ UNCHANGED <<fl, ntx, nbusy, t0>>
\* a rejected start response / handshake: which error
StartMsg == Parsed(W).ms[1]
FastResult ==   \* "ok" / error kind
  IF turn = <<>> THEN "timeout"
  ELSE LET p == Parsed(W) IN
    IF ~p.ok THEN "any"
    ELSE IF HasBit(p.ms[1].fmt, 16) THEN "badcs"
    ELSE IF p.ms[1].b[1] = 193 THEN (IF Len(p.ms[1].b) >= 3 THEN "ok" ELSE "any")
    ELSE "refused"
ModeOf(kb1) == kb1 & 15
StartErr(kind, rc) == rc < 0 /\ (kind = "timeout" => rc = E_TIMEOUT) /\ (kind = "refused" => rc = E_ECUNO)
                             /\ (kind = "badcs" => rc = E_BADCS)
\* successful start: the bus has been quiet before returning
Quiet(t) == t - (IF turn = <<>> THEN t0 ELSE turn[Len(turn)].t) >= 40
RetStart(r, t) ==
  /\ cur.op = "start"
  /\ \/ /\ ReadyInit /\ InitMode = 3 /\ r.rc = 0 /\ r.kb = <<0, 0>> /\ Quiet(t)
        /\ Done([conn EXCEPT !.est = TRUE, !.first = TRUE], TRUE, t)
     \/ /\ ReadyInit /\ InitMode \notin {0, 1, 3} /\ r.rc = E_INITNS /\ Done(<<>>, FALSE, t)
     \/ /\ ph = "s_fail" /\ r.rc < 0 /\ Done(<<>>, FALSE, t)
     \/ /\ ph = "s_drain" /\ r.rc = 0 /\ Quiet(t)
        /\ r.kb = conn.kb
        /\ Done([conn EXCEPT !.est = TRUE, !.md = ModeOf(conn.kb[1])], TRUE, t)
     \/ /\ ph = "rx" /\ InitMode = 1
        /\ LET k == FastResult IN
           IF k = "ok" THEN
              LET m == StartMsg IN
              /\ r.rc = 0 /\ r.kb = <<m.b[2], m.b[3]>> /\ Quiet(t)
              /\ r.phys = m.src
              /\ Done([conn EXCEPT !.est = TRUE, !.kb = r.kb, !.md = ModeOf(m.b[2]), !.phys = m.src], TRUE, t)
           ELSE StartErr(k, r.rc) /\ (k = "timeout" => Waited(t)) /\ Done(<<>>, FALSE, t)
     \/ /\ ph = "s_kb"
        /\ LET bs == FlattenB(Bursts) IN
           IF ~HasErr /\ Len(bs) = 2 /\ HasBit(fl, F_SLOWINIT) THEN
              /\ r.rc = 0 /\ r.kb = <<bs[1] & 127, bs[2]>> /\ Quiet(t)
              /\ Done([conn EXCEPT !.est = TRUE, !.kb = r.kb, !.md = ModeOf(bs[1] & 127)], TRUE, t)
           ELSE Len(bs) < 2 /\ r.rc < 0 /\ (turn = <<>> => r.rc = E_TIMEOUT) /\ Done(<<>>, FALSE, t)
     \/ /\ ph = "s_addr"
        /\ LET bs == FlattenB(Bursts) IN
           IF ~HasErr /\ Len(bs) >= 1 /\ bs[1] = Not8(cur.tgt) THEN
              /\ r.rc = 0 /\ r.kb = conn.kb /\ Quiet(t)
              /\ Done([conn EXCEPT !.est = TRUE, !.md = ModeOf(conn.kb[1])], TRUE, t)
           ELSE r.rc < 0 /\ (turn = <<>> => r.rc = E_TIMEOUT /\ t - t0 >= 49) /\ Done(<<>>, FALSE, t)
RetReq(r, t) ==
  /\ cur.op = "req"
  /\ \/ ph = "refuse" /\ (IF conn = <<>> THEN TRUE ELSE r.null = 1 /\ r.err < 0) /\ Done(conn, FALSE, t)
     \/ ph = "txfail" /\ r.null = 1 /\ r.err < 0 /\ Done(conn, FALSE, t)
     \/ /\ ph = "rx" /\ Waited(t) /\ ~MustResend
        /\ LET o == ReqOutcome IN
           /\ (o.null <=> r.null = 1) /\ ErrOk(o.err, r.err) /\ SameMsgs(o.ms, r.m)
           /\ Done([conn EXCEPT !.first = IF o.null THEN @ ELSE FALSE], ~o.null, t)
RetSend(r, t) ==
  /\ cur.op = "send"
  /\ \/ ph = "refuse" /\ (IF conn = <<>> THEN TRUE ELSE r.rc < 0) /\ Done(conn, FALSE, t)
     \/ ph = "txfail" /\ r.rc < 0 /\ Done(conn, FALSE, t)
     \/ ph = "sent" /\ r.rc = 0 /\ Done(conn, TRUE, t)
RetRecv(r, t) ==
  /\ cur.op = "recv"
  /\ \/ ph = "refuse" /\ conn = <<>> /\ Done(conn, FALSE, t)
     \/ /\ ph = "rx" /\ Waited(t)
        /\ IF turn = <<>> THEN r.rc = E_TIMEOUT /\ r.cbs = <<>> /\ Done(conn, FALSE, t)
           ELSE LET p == Parsed(W) IN
             IF p.ok THEN r.rc = 0 /\ Len(r.cbs) = 1 /\ SameMsgs(p.ms, r.cbs[1].m) /\ Done([conn EXCEPT !.first = FALSE], TRUE, t)
             ELSE r.rc < 0 /\ r.cbs = <<>> /\ Done(conn, FALSE, t)
RetStop(r, t) ==
  /\ cur.op = "stop"
  /\ \/ ph = "refuse" /\ conn = <<>> /\ Done(<<>>, FALSE, t)
     \/ ph \in {"rx", "txfail"} /\ r.rc = 0 /\ ~MustResend /\ (ph = "rx" => Waited(t)) /\ Done(<<>>, FALSE, t)
RetTimer(r, t) ==
  /\ cur.op = "l2timer"
  /\ \/ ph = "kax" /\ Done(conn, TRUE, t)
     \/ ph = "kafail" /\ Done(conn, FALSE, t)
     \/ /\ ph = "ka" /\ turn = <<>>
        /\ IF conn = <<>> THEN TRUE ELSE conn.mode = 3 \/ HasBit(fl, F_KEEPALIVE) \/ t0 - tact <= 3333 + 20
        /\ Done(conn, FALSE, t)
Ret(r, t) == RetStart(r, t) \/ RetReq(r, t) \/ RetSend(r, t) \/ RetRecv(r, t) \/ RetStop(r, t) \/ RetTimer(r, t)
             \/ (ph = "other" /\ Done(conn, FALSE, t))
=============================================================================
