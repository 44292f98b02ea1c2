-------------------------------- MODULE Cli --------------------------------
(* The command line engine: menus, command files, and how lines reach        *)
(* commands.  Input lines and command files are texts; the table of commands *)
(* is the test table of the harness.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES stk, src, mode, exp
vars == <<stk, src, mode, exp>>
(* stk: nested menus, innermost last; src: input streams, src[1] is standard  *)
(* input (p 0: exhausted), src[i] = [f: file, p: next line]; mode: what happens next;       *)
(* exp: text printed since the last event                                     *)
Ent(c, u, h, k, n, rv, hid, sub) == [c |-> c, u |-> u, h |-> h, k |-> k, n |-> n, rv |-> rv, hid |-> hid, sub |-> sub]
Run(c, u, h, n, rv, hid) == Ent(c, u, h, "run", n, rv, hid, "")
Builtin == << Ent("up", "up", "Return to previous menu level", "val", "", "UP", FALSE, ""), Ent("exit", "exit", "Exits program", "val", "", "EXIT", FALSE, ""),
              Ent("quit", "quit", "Exits program", "val", "", "EXIT", TRUE, "") >>
Source == Ent("source", "source <file>", "Run a file", "source", "", "", FALSE, "")
Tables == [
  root |-> << Run("alpha", "alpha [a [b]]", "First", "alpha", "OK", FALSE), Run("Beta", "beta", "Second", "beta", "OK", FALSE),
     Ent("m1", "m1 <command>", "Menu one", "sub", "", "", FALSE, "m1"), Ent("M2", "M2 <command>", "Menu two", "sub", "", "", TRUE, "m2"),
     Run("fail", "fail", "Fails", "fail", "FAILED", TRUE), Run("use", "use <this>", "Wants\nhelp", "use", "USAGE", FALSE), Source,
     Ent("help", "help [command]", "Gives help for a command", "help", "", "", FALSE, ""), Ent("?", "? [command]", "Gives help for a command", "help", "", "", TRUE, "") >> \o Builtin,
  m1 |-> << Ent("help", "help [command]", "Gives help", "help", "", "", FALSE, ""), Run("alpha", "alpha [a]", "First of m1", "alpha", "OK", FALSE), Run("Gamma", "gamma [g]", "Third", "gamma", "OK", FALSE),
     Ent("deep", "deep <command>", "Deeper menu", "sub", "", "", FALSE, "deep"), Run("fail", "fail", "Fails", "fail", "FAILED", TRUE), Run("use", "use <it>", "Wants help", "use", "USAGE", FALSE), Source >> \o Builtin,
  m2 |-> << Run("alpha", "alpha", "First of m2", "alpha", "OK", FALSE), Ent("", "", "", "custom", "any", "OK", TRUE, ""), Ent("?", "? [command]", "Gives help", "help", "", "", TRUE, ""),
     Ent("m1", "m1 <command>", "Another way to m1", "sub", "", "", FALSE, "m1") >> \o Builtin,
  deep |-> << Run("beta", "beta <x>", "Deep beta", "beta", "OK", FALSE), Run("m1", "m1 [y]", "Not a menu", "m1", "FAILED", TRUE), Source >> \o Builtin ]
MaxArgs == 299
-----------------------------------------------------------------------------
Ch(s, i) == SubSeq(s, i, i)
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lower == "abcdefghijklmnopqrstuvwxyz"
Low(c) == IF \E i \in 1..26 : Ch(Upper, i) = c THEN LET i == CHOOSE i \in 1..26 : Ch(Upper, i) = c IN Ch(Lower, i) ELSE c
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Low(Ch(a, i)) = Low(Ch(b, i))
RECURSIVE Split(_, _, _, _)
Split(s, i, a, acc) ==       \* a: where the current word began, 0 between words
  IF i > Len(s) THEN (IF a = 0 THEN acc ELSE Append(acc, SubSeq(s, a, Len(s))))
  ELSE IF Ch(s, i) \in {" ", "\t"} THEN Split(s, i + 1, 0, IF a = 0 THEN acc ELSE Append(acc, SubSeq(s, a, i - 1)))
  ELSE Split(s, i + 1, IF a = 0 THEN i ELSE a, acc)
Words(s) == Split(s, 1, 0, <<>>)
Find(t, w) == LET e == Tables[t] hit == {i \in DOMAIN e : Same(e[i].c, w)} cu == {i \in DOMAIN e : e[i].k = "custom"} IN
  IF hit # {} THEN e[CHOOSE i \in hit : \A j \in hit : i <= j] ELSE IF cu # {} THEN e[CHOOSE i \in cu : TRUE] ELSE Ent("", "", "", "none", "", "", TRUE, "")
Top == stk[Len(stk)]
Pop == SubSeq(stk, 1, Len(stk) - 1)
SetTop(f) == [stk EXCEPT ![Len(stk)] = f]
Frame(t, s, one, p, file) == [t |-> t, s |-> s, one |-> one, p |-> p, last |-> "FAILED", file |-> file]
Say(x) == exp' = exp \o x
\* Unknown: the line is dropped; a menu fed from a file, or asked for one command, is left
Begin(f, files) ==
  /\ mode[1] = "idle" /\ src' = <<[f |-> "", p |-> 1]>> \o (IF f \in DOMAIN files THEN <<[f |-> f, p |-> 1]>> ELSE <<>>)
  /\ IF f = "" THEN stk' = <<Frame("root", 1, FALSE, "t", FALSE)>> /\ mode' = <<"read">> /\ exp' = "\nt> "
     ELSE IF f \notin DOMAIN files THEN stk' = <<>> /\ mode' = <<"atexit">> /\ exp' = "Problem with file " \o f \o "\n"
     ELSE stk' = <<Frame("root", 2, FALSE, "", TRUE)>> /\ mode' = <<"read">> /\ exp' = "running commands from file " \o f \o "...\n"
Prompt(f) == IF f.s = 1 /\ ~f.one THEN f.p \o "> " ELSE ""
\* after a command, the innermost menu wants its next line, or is left
Resume(f, done) == IF done \/ f.one THEN stk' = SetTop(f) /\ mode' = <<"end">> /\ UNCHANGED exp
                   ELSE stk' = SetTop(f) /\ mode' = <<"read">> /\ Say(Prompt(f))
Interpret(line) ==
  LET w == Words(line) IN
  IF (line # "" /\ Ch(line, 1) = "@") THEN mode' = <<"read">> /\ Say(line \o "\n" \o Prompt(Top))
  ELSE IF (line # "" /\ Ch(line, 1) = "#") \/ w = <<>> THEN mode' = <<"read">> /\ Say(Prompt(Top))
  ELSE mode' = <<"exec", SubSeq(w, 1, IF Len(w) > MaxArgs THEN MaxArgs ELSE Len(w))>> /\ Say(IF Len(w) > MaxArgs THEN "Warning : excessive # of arguments\n" ELSE "")
ReadUser(line) == mode[1] = "read" /\ Top.s = 1 /\ src[1].p = 1 /\ exp = "" /\ Interpret(line) /\ UNCHANGED <<stk, src>>
Eof == mode[1] = "read" /\ Top.s = 1 /\ src[1].p = 1 /\ exp = "" /\ mode' = <<"end">> /\ src' = [src EXCEPT ![1].p = 0] /\ UNCHANGED <<stk, exp>>
Ended == mode[1] = "read" /\ Top.s = 1 /\ src[1].p = 0 /\ mode' = <<"end">> /\ UNCHANGED <<stk, src, exp>>
ReadFile(files) ==
  /\ mode[1] = "read" /\ Top.s > 1
  /\ LET s == src[Top.s] IN
     IF s.p > Len(files[s.f]) THEN mode' = <<"end">> /\ UNCHANGED <<stk, src, exp>>
     ELSE src' = [src EXCEPT ![Top.s].p = @ + 1] /\ Interpret(files[s.f][s.p]) /\ UNCHANGED stk
Exec == mode[1] = "exec"
Unrecognized ==
  /\ Exec /\ Find(Top.t, mode[2][1]).k = "none"
  /\ UNCHANGED src /\ LET m == "Unrecognized command. Try \"help\"\n" IN
     IF Top.s > 1 \/ Top.one THEN mode' = <<"end">> /\ Say(m) /\ UNCHANGED stk ELSE mode' = <<"read">> /\ Say(m \o Prompt(Top)) /\ UNCHANGED stk
\* every command that is found is logged, a menu by its name alone
Log(a) ==
  /\ Exec /\ exp = ""
  /\ LET w == mode[2] e == Find(Top.t, w[1]) IN
     /\ e.k # "none"
     /\ UNCHANGED src
     /\ IF e.k = "sub" THEN
           /\ a = <<w[1]>>
           /\ LET f == Frame(e.sub, Top.s, Len(w) > 1, Top.p \o "/" \o e.c, FALSE) IN
              stk' = Append(stk, f) /\ mode' = (IF Len(w) > 1 THEN <<"exec", Tail(w)>> ELSE <<"read">>) /\ Say(Prompt(f))
        ELSE a = w /\ mode' = <<"call", w, e>> /\ UNCHANGED <<stk, exp>>
Called == mode[1] = "call"
RunCmd(m, n, a) ==
  /\ Called /\ exp = "" /\ mode[3].k \in {"run", "custom"} /\ m = Top.t /\ n = mode[3].n /\ a = mode[2]
  /\ mode' = <<"ret", mode[3].rv, mode[3]>> /\ UNCHANGED <<stk, src, exp>>
Value == Called /\ mode[3].k = "val" /\ mode' = <<"ret", mode[3].rv, mode[3]>> /\ UNCHANGED <<stk, src, exp>>
RECURSIVE Lines(_, _)
Lines(e, i) == IF i > Len(e) THEN "" ELSE (IF e[i].hid THEN "" ELSE "\t" \o e[i].u \o "\n") \o (IF e[i].k = "custom" THEN "Custom commands for the current level:\n" ELSE "") \o Lines(e, i + 1)
CustomAt(t) == LET c == {i \in DOMAIN Tables[t] : Tables[t][i].k = "custom"} IN IF c = {} THEN 0 ELSE CHOOSE i \in c : TRUE
Closing == "\nTry \"help <command>\" for further help\n"
Help ==
  /\ Called /\ mode[3].k = "help" /\ UNCHANGED <<stk, src>>
  /\ LET w == mode[2] t == Tables[Top.t] k == CustomAt(Top.t) IN
     IF Len(w) > 1 THEN
        LET hit == {i \in DOMAIN t : Same(t[i].c, w[2])} IN
        /\ Say(IF hit = {} THEN "help: " \o w[2] \o ": no such command\n" ELSE LET e == t[CHOOSE i \in hit : \A j \in hit : i <= j] IN e.c \o ": " \o e.h \o "\nUsage: " \o e.u \o "\n")
        /\ mode' = <<"ret", "OK", mode[3]>>
     ELSE IF k = 0 THEN Say("Available commands are :\n" \o Lines(t, 1) \o Closing) /\ mode' = <<"ret", "OK", mode[3]>>
     ELSE Say("Available commands are :\n" \o Lines(SubSeq(t, 1, k), 1)) /\ mode' = <<"ask", mode[3]>>
\* a menu with own handling of unlisted commands is asked to list them
AskCustom(m, n, a) ==
  /\ mode[1] = "ask" /\ exp = "" /\ UNCHANGED <<stk, src>>
  /\ LET k == CustomAt(Top.t) IN m = Top.t /\ n = Tables[Top.t][k].n /\ a = <<"?">> /\ exp' = Lines(SubSeq(Tables[Top.t], k + 1, Len(Tables[Top.t])), 1) \o Closing
  /\ mode' = <<"ret", "OK", mode[2]>>
SourceCmd(files) ==
  /\ Called /\ mode[3].k = "source"
  /\ LET w == mode[2] IN
     IF Len(w) < 2 THEN Say("No filename\n") /\ mode' = <<"ret", "USAGE", mode[3]>> /\ UNCHANGED <<stk, src>>
     ELSE IF w[2] \notin DOMAIN files THEN Say("Couldn't read " \o w[2] \o "\n") /\ mode' = <<"ret", "FAILED", mode[3]>> /\ UNCHANGED <<stk, src>>
     ELSE Say("running commands from file " \o w[2] \o "...\n") /\ src' = Append(src, [f |-> w[2], p |-> 1]) /\ stk' = Append(stk, Frame("root", Len(src) + 1, FALSE, "", TRUE)) /\ mode' = <<"read">>
Returned ==
  /\ mode[1] = "ret" /\ UNCHANGED src
  /\ LET rv == mode[2] e == mode[3] f == [Top EXCEPT !.last = rv] IN
     IF rv = "USAGE" THEN
        IF f.one THEN Say("Usage: " \o e.u \o "\n" \o e.h \o "\n") /\ stk' = SetTop(f) /\ mode' = <<"end">>
        ELSE Say("Usage: " \o e.u \o "\n" \o e.h \o "\n" \o Prompt(f)) /\ stk' = SetTop(f) /\ mode' = <<"read">>
     ELSE Resume(f, rv = "EXIT" \/ (rv = "UP" /\ Top.t # "root"))
\* the innermost menu is left
EndMenu ==
  /\ mode[1] = "end" /\ LET f == Top rv == IF f.last = "UP" THEN "OK" ELSE f.last IN
     IF Len(stk) = 1 THEN
        /\ IF f.file /\ rv # "EXIT" THEN \* the start-up commands are over: the user's turn
              stk' = <<Frame("root", 1, FALSE, "t", FALSE)>> /\ mode' = <<"read">> /\ Say("\nt> ") /\ src' = SubSeq(src, 1, 1)
           ELSE stk' = <<>> /\ mode' = <<"atexit">> /\ UNCHANGED <<src, exp>>
     ELSE IF f.file THEN stk' = Pop /\ src' = SubSeq(src, 1, Len(src) - 1) /\ mode' = <<"ret", IF rv = "EXIT" THEN "EXIT" ELSE "OK", Source>> /\ UNCHANGED exp
     ELSE LET g == [stk[Len(stk) - 1] EXCEPT !.last = rv] IN
          /\ UNCHANGED src
          /\ IF rv = "EXIT" \/ g.one THEN stk' = SubSeq(stk, 1, Len(stk) - 2) \o <<g>> /\ mode' = <<"end">> /\ UNCHANGED exp
             ELSE stk' = SubSeq(stk, 1, Len(stk) - 2) \o <<g>> /\ mode' = <<"read">> /\ Say(Prompt(g))
Out(s) == exp # "" /\ exp = s /\ exp' = "" /\ UNCHANGED <<stk, src, mode>>
AtExit == mode[1] = "atexit" /\ exp = "" /\ mode' = <<"done">> /\ UNCHANGED <<stk, src, exp>>
Over == mode[1] = "done" /\ mode' = <<"idle">> /\ stk' = <<>> /\ src' = <<>> /\ UNCHANGED exp
Silent(files) == Ended \/ ReadFile(files) \/ Unrecognized \/ Value \/ Help \/ SourceCmd(files) \/ Returned \/ EndMenu
Init0 == stk = <<>> /\ src = <<>> /\ mode = <<"idle">> /\ exp = ""
=============================================================================
