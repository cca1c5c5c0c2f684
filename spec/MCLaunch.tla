------------------------------- MODULE MCLaunch -------------------------------
(***************************************************************************)
(* The launcher, the server and the command as three processes, for every  *)
(* command line, server behaviour, identity and failing call.  What they   *)
(* do is the log of Launch.tla, checked as it grows.                       *)
(***************************************************************************)
EXTENDS Launch, TLC, TLCExt, Json
CONSTANTS Lines, Plans, Who, Emit
VARIABLES cfg,                 \* the run; <<>> before it is chosen
          lpc, spc, cpc,       \* where the three processes are
          cnt,                 \* calls made so far of the kind that fails
          pipe,                \* "open", "byte" or "eof"
          sock,                \* [owner, mode] of the socket, <<>> if there is none
          ids,                 \* the launcher's identity
          tp,                  \* the server has a TERM signal pending
          mon, ok
vars == <<cfg, lpc, spc, cpc, cnt, pipe, sock, ids, tp, mon, ok>>

Line(n) == CASE n = "e0" -> <<"cmd", "exit:0">> [] n = "e3" -> <<"cmd", "exit:3">> [] n = "e255" -> <<"./cmd", "exit:255">>
             [] n = "s9" -> <<"cmd", "sig:9">> [] n = "s15" -> <<"cmd", "sig:15">> [] n = "s11" -> <<"cmd", "sig:11">> [] n = "s1" -> <<"cmd", "sig:1">>
             [] n = "slow" -> <<"cmd", "sleep:30", "exit:7">>
             [] n = "dd" -> <<"--", "cmd", "-h", "-l", "x", "--", "exit:4">>
             [] n = "lvl" -> <<"-l", "debug", "cmd", "exit:0">> [] n = "lvl2" -> <<"-l", "silent", "-lerror", "--", "./cmd", "a b", "exit:5">>
             [] n = "nocmd" -> <<"no-such-command", "x">> [] n = "noexec" -> <<"./plan">>
             [] n = "none" -> <<>> [] n = "ddnone" -> <<"-l", "info", "--">> [] n = "h" -> <<"-h">> [] n = "v" -> <<"-v", "cmd">> [] n = "hx" -> <<"-hx">> [] n = "xh" -> <<"-xh">>
             [] n = "x" -> <<"-x", "cmd", "exit:0">> [] n = "l" -> <<"-l">> [] n = "lh" -> <<"-l", "debug", "-h", "cmd">> [] n = "l1" -> <<"-l", "cmd">>
             [] n = "use" -> <<"cmd", "ping", "exit:6">>
Plan(n) == CASE n = "ok" -> <<"bind", "ready">> [] n = "late" -> <<"bind", "sleep:40", "ready">> [] n = "early" -> <<"ready", "bind">> [] n = "nosock" -> <<"ready">>
             [] n = "x0" -> <<"exit:0">> [] n = "x1" -> <<"bind", "exit:1">> [] n = "k9" -> <<"bind", "sleep:10", "kill:9">>
             [] n = "close" -> <<"bind", "close", "sleep:20", "exit:0">> [] n = "die" -> <<"bind", "ready", "exit:1">> [] n = "die2" -> <<"bind", "ready", "sleep:15", "kill:9">>
             [] n = "real" -> <<"real">>
F(c, n, e) == [c |-> c, n |-> n, e |-> e]
NoFail == F("", 0, 0)
Fails == {F("pipe", 1, 24), F("fork", 1, 11), F("fork", 2, 11), F("chown", 1, 1), F("chmod", 1, 1), F("setgid", 1, 1), F("setuid", 1, 11),
          F("execve", 1, 2), F("execvp", 1, 13), F("waitnb", 1, 4), F("waitnb", 1, 22), F("waitnb", 2, 4), F("waitnb", 2, 22),
          F("poll", 1, 4), F("poll", 1, 11), F("poll", 1, 12), F("poll", 2, 12), F("read", 1, 4), F("read", 1, 5), F("waitpid", 1, 4), F("waitpid", 1, 10)}
Cfg(l, p, w, f, c) == [args |-> Line(l), plan |-> Plan(p), ids |-> w, fail |-> f, chld |-> c]
Cfgs == {Cfg(l, p, "user", NoFail, 0) : l \in Lines, p \in Plans}
        \cup {Cfg(l, p, w, NoFail, c) : l \in {"e3", "s9"}, p \in Plans, w \in Who, c \in {0, 1}}
        \cup {Cfg(l, p, w, f, 0) : l \in {"e0", "slow"}, p \in {"ok", "late", "close", "die"}, w \in Who, f \in Fails}
        \cup {Cfg("use", "real", w, f, 0) : w \in Who, f \in {NoFail} \cup Fails}

NoMon == [none |-> TRUE]
Init == /\ cfg = <<>> /\ lpc = "pick" /\ spc = 0 /\ cpc = "no" /\ cnt = 0 /\ pipe = "open" /\ sock = <<>> /\ ids = <<>> /\ tp = FALSE
        /\ mon = NoMon /\ ok = TRUE
Pick == /\ lpc = "pick"
        /\ \E a \in Cfgs : /\ cfg' = a /\ mon' = Begin(a) /\ ids' = Ids(a.ids)
                           /\ IF Emit THEN PrintT(<<"T", TLCFP(0), TLCFP(0), ToJson(a)>>) ELSE TRUE
        /\ lpc' = "start" /\ UNCHANGED <<spc, cpc, cnt, pipe, sock, tp, ok>>

Log(e) == mon' = Step(mon, e) /\ ok' = (ok /\ ~Bad(mon, e))
Quiet == UNCHANGED <<mon, ok>>
\* the launcher makes a call of kind c
Hit(c) == cfg.fail.c = c /\ cfg.fail.n = cnt + 1
Count(c) == cnt' = IF cfg.fail.c = c /\ cnt < 3 THEN cnt + 1 ELSE cnt
Strike(c) == Log([t |-> "fault", c |-> c, e |-> cfg.fail.e])
\* a call that fails for good or goes on
Call(c, next, err) == /\ Count(c)
                      /\ IF Hit(c) THEN Strike(c) /\ lpc' = err ELSE Quiet /\ lpc' = next
U1 == UNCHANGED <<cfg, spc, cpc, pipe, sock, ids, tp>>
\* exit code of a launcher that gives up
Give == "term"

Launcher ==
  \/ /\ lpc = "start" /\ UNCHANGED <<cfg, spc, cpc, cnt, pipe, sock, ids, tp>>
     /\ lpc' = IF mon.p.res = "run" THEN "pipe" ELSE "out"
     /\ Quiet
  \/ /\ lpc = "pipe" /\ Call("pipe", "fork1", "fail") /\ U1
  \/ /\ lpc = "fork1" /\ Count("fork") /\ UNCHANGED <<cfg, cpc, pipe, sock, ids, tp>>
     /\ IF Hit("fork") THEN Strike("fork") /\ lpc' = "fail" /\ spc' = spc ELSE Quiet /\ lpc' = "waitnb" /\ spc' = 1
  \/ /\ lpc = "waitnb" /\ Count("waitnb") /\ UNCHANGED <<cfg, spc, cpc, pipe, sock, ids, tp>>
     /\ IF Hit("waitnb") THEN /\ Strike("waitnb") /\ lpc' = IF cfg.fail.e \in {4, 10} THEN "poll" ELSE "term"
        ELSE Quiet /\ lpc' = IF spc = 99 THEN "fail" ELSE "poll"
  \/ /\ lpc = "poll" /\ (pipe # "open" \/ Hit("poll"))       \* the timeout only makes it look again
     /\ Count("poll") /\ U1
     /\ IF Hit("poll") THEN Strike("poll") /\ lpc' = IF cfg.fail.e \in {4, 11} THEN "waitnb" ELSE "term"
        ELSE Quiet /\ lpc' = IF pipe = "byte" THEN "read" ELSE "waitnb"
  \/ /\ lpc = "read" /\ Count("read") /\ U1
     /\ IF Hit("read") THEN Strike("read") /\ lpc' = IF cfg.fail.e = 4 THEN "waitnb" ELSE "term"
        ELSE Quiet /\ lpc' = "chown"
  \/ /\ lpc = "chown" /\ Count("chown") /\ UNCHANGED <<cfg, spc, cpc, pipe, ids, tp>>
     /\ IF Hit("chown") THEN Strike("chown") /\ lpc' = "term" /\ sock' = sock
        ELSE /\ Quiet
             /\ IF sock = <<>> \/ (ids[2] # 0 /\ sock[1] # ids[2]) THEN lpc' = "term" /\ sock' = sock
                ELSE lpc' = "chmod" /\ sock' = <<ids[1], ids[4], sock[3]>>
  \/ /\ lpc = "chmod" /\ Count("chmod") /\ UNCHANGED <<cfg, spc, cpc, pipe, ids, tp>>
     /\ IF Hit("chmod") THEN Strike("chmod") /\ lpc' = "term" /\ sock' = sock
        ELSE Quiet /\ lpc' = "setgid" /\ sock' = <<sock[1], sock[2], 448>>
  \/ /\ lpc = "setgid" /\ Count("setgid") /\ UNCHANGED <<cfg, spc, cpc, pipe, sock, tp>>
     /\ IF Hit("setgid") THEN Strike("setgid") /\ lpc' = "term" /\ ids' = ids
        ELSE Quiet /\ lpc' = "setuid" /\ ids' = [ids EXCEPT ![5] = ids[4], ![6] = IF ids[2] = 0 THEN ids[4] ELSE @]
  \/ /\ lpc = "setuid" /\ Count("setuid") /\ UNCHANGED <<cfg, spc, cpc, pipe, sock, tp>>
     /\ IF Hit("setuid") THEN Strike("setuid") /\ lpc' = "term" /\ ids' = ids
        ELSE Quiet /\ lpc' = "fork2" /\ ids' = [ids EXCEPT ![2] = ids[1], ![3] = IF ids[2] = 0 THEN ids[1] ELSE @]
  \/ /\ lpc = "fork2" /\ Count("fork") /\ UNCHANGED <<cfg, spc, pipe, sock, ids, tp>>
     /\ IF Hit("fork") THEN Strike("fork") /\ lpc' = "term" /\ cpc' = cpc ELSE Quiet /\ lpc' = "wait" /\ cpc' = "exec"
  \/ /\ lpc = "wait" /\ (cpc = "gone" \/ Hit("waitpid")) /\ Count("waitpid") /\ U1
     /\ IF Hit("waitpid") THEN Strike("waitpid") /\ lpc' = IF cfg.fail.e = 4 THEN "wait" ELSE "term"
        ELSE Quiet /\ lpc' = "kill"
  \/ /\ lpc \in {"term", "kill"} /\ tp' = (tp \/ spc # 99) /\ lpc' = IF lpc = "term" THEN "fail" ELSE "out"
     /\ UNCHANGED <<cfg, spc, cpc, cnt, pipe, sock, ids>> /\ Quiet
  \/ /\ lpc \in {"fail", "out"} /\ lpc' = "gone" /\ UNCHANGED <<cfg, spc, cpc, cnt, pipe, sock, ids, tp>>
     /\ Log([t |-> "exit", code |-> IF lpc = "fail" THEN 1 ELSE CASE mon.p.res = "info" -> 0 [] mon.p.res = "refuse" -> 1
                                                                  [] OTHER -> IF mon.code = -1 THEN 1 ELSE mon.code])

\* the server: 1 to be executed, 2.. its plan, 50 paused, 99 gone
Server ==
  /\ spc \in 1..98 /\ UNCHANGED <<cfg, lpc, cpc, cnt, ids>>
  /\ \/ /\ tp /\ spc' = 99 /\ tp' = FALSE /\ pipe' = (IF pipe = "open" THEN "eof" ELSE pipe) /\ sock' = IF mon.sd = "real" THEN <<>> ELSE sock
        /\ IF mon.sd = "up" THEN Log([t |-> "term"]) ELSE Quiet
     \/ /\ spc = 1 /\ UNCHANGED <<tp, sock>>
        /\ IF cfg.fail.c = "execve" THEN spc' = 99 /\ pipe' = "eof" /\ Strike("execve")
           ELSE /\ spc' = 2 /\ pipe' = pipe
                /\ Log([t |-> "seatd", args |-> <<"-n", "FD", "-l", mon.p.lvl, "-z">>, euid |-> ids[2], nfd |-> 1])
     \/ /\ spc \in 2..49 /\ UNCHANGED tp
        /\ LET j == spc - 1  x == IF j <= Len(cfg.plan) THEN cfg.plan[j] ELSE "pause" IN
           CASE x = "bind" -> spc' = spc + 1 /\ sock' = <<ids[2], ids[5], 493>> /\ pipe' = pipe /\ Log([t |-> "bound"])
             [] x = "ready" -> spc' = spc + 1 /\ pipe' = "byte" /\ sock' = sock /\ Log([t |-> "ready"])
             [] x = "close" -> spc' = spc + 1 /\ pipe' = "eof" /\ UNCHANGED sock /\ Quiet
             [] x = "real" -> spc' = 60 /\ UNCHANGED <<pipe, sock>> /\ Log([t |-> "real"])
             [] x \in {"exit:0", "exit:1", "kill:9"} -> spc' = 99 /\ pipe' = (IF pipe = "open" THEN "eof" ELSE pipe) /\ UNCHANGED sock /\ Log([t |-> "sdexit"])
             [] x = "pause" -> spc' = 50 /\ UNCHANGED <<pipe, sock>> /\ Quiet
             [] OTHER -> spc' = spc + 1 /\ UNCHANGED <<pipe, sock>> /\ Quiet
     \/ /\ spc = 60 /\ spc' = 61 /\ sock' = <<ids[2], ids[5], 493>> /\ UNCHANGED <<tp, pipe>> /\ Quiet
     \/ /\ spc = 61 /\ spc' = 50 /\ pipe' = "byte" /\ UNCHANGED <<tp, sock>> /\ Quiet

Code(l) == CASE l = Line("e0") \/ l = Line("lvl") -> 0 [] l = Line("e3") -> 3 [] l = Line("e255") -> 255 [] l = Line("s9") -> 137 [] l = Line("s15") -> 143 [] l = Line("s11") -> 139
             [] l = Line("s1") -> 129 [] l = Line("slow") -> 7 [] l = Line("dd") -> 4 [] l = Line("lvl2") -> 5 [] l = Line("use") -> 6 [] OTHER -> 1
Command ==
  /\ cpc \in {"exec", "run", "use"} /\ UNCHANGED <<cfg, lpc, spc, cnt, pipe, sock, ids, tp>>
  /\ CASE cpc = "exec" -> IF cfg.fail.c = "execvp" THEN cpc' = "gone" /\ Strike("execvp")
                          ELSE IF ~Runnable(mon.p.cmd) THEN cpc' = "gone" /\ Quiet
                          ELSE /\ cpc' = IF cfg.args = Line("use") THEN "use" ELSE "run"
                               /\ Log([t |-> "cmd", args |-> Tail(mon.p.cmd), ids |-> <<ids[1], ids[2], ids[2], ids[4], ids[5], ids[5]>>, sock |-> "s", mark |-> "m",
                                       kind |-> IF sock = <<>> THEN "none" ELSE "sock", uid |-> IF sock = <<>> THEN 0 ELSE sock[1],
                                       gid |-> IF sock = <<>> THEN 0 ELSE sock[2], mode |-> IF sock = <<>> THEN 0 ELSE sock[3]])
       [] cpc = "use" -> cpc' = "run" /\ Log([t |-> "ping", ok |-> IF spc = 50 THEN 1 ELSE 0])
       [] OTHER -> cpc' = "gone" /\ Log([t |-> "cmdend", code |-> Code(cfg.args)])
End == /\ lpc = "gone" /\ spc \in {0, 99} /\ cpc \in {"no", "gone"} /\ lpc' = "end"
       /\ Log([t |-> "end", left |-> 0]) /\ UNCHANGED <<cfg, spc, cpc, cnt, pipe, sock, ids, tp>>

Next == Pick \/ Launcher \/ Server \/ Command \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Launcher) /\ WF_vars(Server) /\ WF_vars(Command) /\ WF_vars(End)
\* every log conforms; the run ends, nothing is left
I23 == ok
A23 == (lpc = "start") ~> (lpc = "end")
=============================================================================
