-------------------------------- MODULE Log --------------------------------
(* Log files (C39): which commands and which monitored data are written to    *)
(* which file, and when.  The program around it is Obd (and Prog).            *)
EXTENDS Obd
VARIABLES lg
lvars == <<cfg, dbg, st, pc, exp, acc, menu, mask, ob, lg>>
\* lg: [on: the file written to ("" none), t0: when logging began, fs: how many lines each file has]
\* a line is written as [k, lo, hi, x]: k the mark ("" none), written lo..hi ms after logging began
\* R(f) is what file f holds in the end, lines [k, ms, x]: nothing is ever changed or removed, so that each line can be compared when it is written
LInit(files) == OInit /\ lg = [on |-> "", t0 |-> 0, fs |-> files]
MainMenu == {"log", "stoplog", "play", "date", "#", "source", "help", "?", "scan", "monitor", "cleardtc", "ecus", "pids", "dumpdata", "watch", "up", "exit", "quit"}
SubCmds == [set |-> {}, diag |-> {"connect", "disconnect", "addl3", "reml3", "sendreq", "sr", "read", "rx", "probe", "fastprobe"}, test |-> {"readiness", "rvi", "cms", "ncms"},
  debug |-> {"L0", "L1", "L2", "L3", "CLI", "all", "show"}]
Always == {"up", "exit", "quit", "help", "?"}
OneOf(S, w) == \E k \in S : Same(k, w)
\* what is written of a command line: the menu it names, then the command (if there is such a one: the set menu takes every name)
Takes(m, w) == m = "set" \/ OneOf(Always, w) \/ OneOf(SubCmds[m], w)
RECURSIVE Args(_)
Args(w) == IF w = <<>> THEN "" ELSE " " \o Head(w) \o Args(Tail(w))
Logged(m, w) ==
  IF m # "" THEN (IF Takes(m, w[1]) THEN <<Args(w)>> ELSE <<>>)
  ELSE IF OneOf(DOMAIN SubCmds, w[1])
    THEN LET k == CHOOSE k \in DOMAIN SubCmds : Same(k, w[1]) IN <<" " \o w[1]>> \o (IF Len(w) = 1 THEN <<>> ELSE IF Takes(k, w[2]) THEN <<Args(Tail(w))>> ELSE <<>>)
  ELSE IF OneOf(MainMenu, w[1]) THEN <<Args(w)>> ELSE <<>>
Stamped(k, lo, hi, x) == [k |-> k, lo |-> lo - lg.t0, hi |-> hi - lg.t0, x |-> x]
Plain(x) == [k |-> "", lo |-> 0, hi |-> 0, x |-> x]
Fits(e, r) == e.k = r.k /\ e.x = r.x /\ (r.k = "" \/ (e.lo <= r.ms /\ r.ms <= e.hi))
\* the lines es are written
Written(g, es, R(_)) == IF g.on = "" THEN TRUE ELSE LET r == R(g.on)  n == g.fs[g.on] IN Len(r) >= n + Len(es) /\ \A i \in DOMAIN es : Fits(es[i], r[n + i])
Write(g, es) == IF g.on = "" THEN g ELSE [g EXCEPT !.fs = [@ EXCEPT ![g.on] = @ + Len(es)]]
Auto(n) == "log." \o (IF n < 10 THEN "0" ELSE "") \o ToString(n)
Autos == [n \in 0..99 |-> Auto(n)]
Free(fs) == {n \in 0..99 : Autos[n] \notin DOMAIN fs}
Bad(f) == StartsWith(f, "nodir/") \/ f = "."
\* logging begins, at the end of the file
Header == <<Plain("FREEDIAG log format 0.2"), [k |-> "#", lo |-> 0, hi |-> 2, x |-> "logging started at DATE"]>>
DoLog(g, as, t) ==
  IF g.on # "" THEN [g |-> g, es |-> <<>>, x |-> "Already logging\n"]
  ELSE LET fr == IF as # <<>> THEN {0} ELSE Free(g.fs) IN
    IF fr = {} THEN [g |-> g, es |-> <<>>, x |-> "Can't create log.100; remember to clean old auto log files\n"]
    ELSE LET f == IF as # <<>> THEN as[1] ELSE Auto(CHOOSE m \in fr : \A k \in fr : m <= k) IN
      IF Bad(f) THEN [g |-> g, es |-> <<>>, x |-> "Failed to create log file " \o f \o "\n"]
      ELSE [g |-> [on |-> f, t0 |-> t, fs |-> [n \in DOMAIN g.fs \cup {f} |-> IF n \in DOMAIN g.fs THEN g.fs[n] ELSE 0]], es |-> Header, x |-> "Logging to file " \o f \o "\n"]
PlayText == "Warning : incomplete codeDATE:\t+/- to step, S/E to goto start or end, Q to quit\n"
\* a line read at time t
Own(w, g, t, R(_)) ==
  /\ UNCHANGED <<cfg, dbg, st, acc, menu, ob>>
  /\ CASE Same(w[1], "log") -> LET r == DoLog(g, Tail(w), t) IN Written(r.g, r.es, R) = TRUE /\ lg' = Write(r.g, r.es) /\ Done(r.x)
       [] Same(w[1], "stoplog") -> lg' = [g EXCEPT !.on = ""] /\ Done(IF g.on = "" THEN "Logging was not on\n" ELSE "")
       [] Same(w[1], "date") -> lg' = g /\ Done("DATE")
       [] Same(w[1], "play") -> lg' = g /\
            (IF Len(w) = 1 THEN Done("Usage: play filename\nPlay back data from <filename>\n")
             ELSE IF w[2] \notin DOMAIN g.fs THEN Done("Failed to open log file " \o w[2] \o "\n") ELSE pc' = <<"play">> /\ UNCHANGED exp)
       [] OTHER -> lg' = g /\ Done("")
LLine(s, t, R(_)) ==
  LET w == Words(s) IN
  IF pc # <<"read">> \/ exp # "" \/ w = <<>> \/ (IF s = "" THEN TRUE ELSE Ch(s, 1) = "#") THEN OLine(s) /\ UNCHANGED lg
  ELSE LET c == Logged(menu, w)  es == [i \in DOMAIN c |-> Stamped(">", t - 2, t + 2, c[i])]  g == Write(lg, es) IN
    /\ Written(lg, es, R) = TRUE
    /\ IF menu = "" /\ OneOf({"log", "stoplog", "date", "play", "#"}, w[1]) THEN Own(w, g, t, R) ELSE OLine(s) /\ lg' = g
\* playing back is not done yet, but can be ended: n keys were typed, the last of them (or the end of the input) ended it
Play(n) == pc = <<"play">> /\ UNCHANGED <<cfg, dbg, st, acc, menu, ob, lg>> /\ Done(Texts(LAMBDA i : PlayText, n))
\* monitored data is written each time it was shown
GoodPids(f) == TLCEval(Asc({p \in DOMAIN f : f[p].ok}))
RowsIn(f, i) == LET ps == GoodPids(f) IN TLCEval([k \in DOMAIN ps |-> Plain(ToString(i - 1) \o ": " \o Dump(f[ps[k]].b))])
RECURSIVE RowsOf(_, _)
RowsOf(fs, i) == IF i > Len(fs) THEN <<>> ELSE LET r == RowsIn(fs[i], i) IN r \o RowsOf(fs, i + 1)
Slack == 1000
LSilent(R(_)) ==
  /\ OSilent
  /\ IF (IF pc[1] = "work" THEN Head(pc[2])[1] # "datalog" ELSE TRUE) THEN lg' = lg
     ELSE LET M(x) == <<Stamped("D", ob.at - 2, ob.at + Slack, x)>>  es == ob.ecus
              new == TLCEval(M("MODE 1 DATA") \o RowsOf(TLCEval([i \in DOMAIN es |-> es[i].d1]), 1) \o M("MODE 2 DATA") \o RowsOf(TLCEval([i \in DOMAIN es |-> es[i].d2]), 1)) IN
          Written(lg, new, R) = TRUE /\ lg' = Write(lg, new)
\* afterwards: the files that are there, and how long they are
File(n, there, len) == UNCHANGED lvars /\ there = (IF n \in DOMAIN lg.fs THEN 1 ELSE 0) /\ (n \in DOMAIN lg.fs => len = lg.fs[n])
=============================================================================
