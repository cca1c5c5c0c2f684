---------------------------------- MODULE Launch ----------------------------------
(***************************************************************************)
(* seatd-launch (seatd-launch/seatd-launch.c).  A run is a log of what its *)
(* two children see and of its end:                                        *)
(*   fault                  a call of the launcher was made to fail        *)
(*   seatd                  the server started: arguments, identity        *)
(*   bound, ready, sdexit   the server bound its socket, announced         *)
(*                          readiness, ended by itself                     *)
(*   real                   the server is the real seatd from here on      *)
(*   term                   the server was told to terminate               *)
(*   cmd, ping, cmdend      the command started, used the server, ended    *)
(*   exit, end              the launcher ended; what is left of it         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
\* hard: a step failed; lost: the launcher cannot wait for the command it already started
\* real, effective and saved user, then group
Ids(n) == CASE n = "user" -> <<1000, 0, 0, 1000, 1000, 1000>>
            [] n = "sgid" -> <<1000, 0, 0, 1, 0, 0>>
            [] n = "daemon" -> <<1, 0, 0, 2, 2, 2>>
            [] n = "plain" -> <<1000, 1000, 1000, 1000, 1000, 1000>>
            [] n = "suid" -> <<1000, 1, 1, 1000, 1000, 1000>>
            [] OTHER -> <<0, 0, 0, 0, 0, 0>>

\* the command line
RECURSIVE Parse(_, _)
Parse(a, lvl) ==
  LET res(r) == [res |-> r, lvl |-> lvl, cmd |-> <<>>] IN
  IF a = <<>> THEN res("refuse")
  ELSE CASE Head(a) = "--" -> IF Len(a) = 1 THEN res("refuse") ELSE [res |-> "run", lvl |-> lvl, cmd |-> Tail(a)]
         [] Head(a) \in {"-h", "-v", "-hx", "-vx"} -> res("info")
         [] Head(a) = "-lerror" -> Parse(Tail(a), "error")
         [] Head(a) = "-l" -> IF Len(a) = 1 THEN res("refuse") ELSE Parse(SubSeq(a, 3, Len(a)), a[2])
         [] Head(a) \in {"-x", "-xh", "--help"} -> res("refuse")
         [] OTHER -> [res |-> "run", lvl |-> lvl, cmd |-> a]
Runnable(c) == c[1] \in {"cmd", "./cmd"}

Begin(a) == [p |-> Parse(a.args, "info"), ids |-> Ids(a.ids), hard |-> FALSE, lost |-> FALSE, sd |-> "no", bound |-> FALSE, ready |-> FALSE, good |-> FALSE,
             cmd |-> FALSE, code |-> -1, term |-> FALSE, done |-> FALSE, out |-> -1]

\* interrupted and repeated calls may simply be made again
Soft(e) == (e.e = 4 /\ e.c \in {"poll", "read", "waitnb", "waitpid"}) \/ (e.c = "poll" /\ e.e = 11) \/ (e.c = "waitnb" /\ e.e = 10)

Step(s, e) ==
  CASE e.t = "fault" -> IF Soft(e) THEN s ELSE IF e.c = "waitpid" THEN [s EXCEPT !.lost = TRUE] ELSE [s EXCEPT !.hard = TRUE]
    [] e.t = "seatd" -> [s EXCEPT !.sd = "up"]
    [] e.t = "bound" -> [s EXCEPT !.bound = TRUE]
    [] e.t = "ready" -> [s EXCEPT !.ready = TRUE, !.good = s.bound]
    [] e.t = "real" -> [s EXCEPT !.sd = "real", !.ready = TRUE]
    [] e.t = "sdexit" -> [s EXCEPT !.sd = "gone"]
    [] e.t = "term" -> [s EXCEPT !.term = TRUE]
    [] e.t = "cmd" -> [s EXCEPT !.cmd = TRUE]
    [] e.t = "cmdend" -> [s EXCEPT !.code = e.code]
    [] e.t = "exit" -> [s EXCEPT !.done = TRUE]
    [] OTHER -> s

Has(args, x) == \E j \in 1..(Len(args) - Len(x) + 1) : SubSeq(args, j, j + Len(x) - 1) = x
BadServer(s, e) == \/ s.p.res # "run" \/ s.sd # "no"
                   \/ ~(Has(e.args, <<"-n", "FD">>) /\ Has(e.args, <<"-l", s.p.lvl>>) /\ Has(e.args, <<"-z">>))
                   \/ e.nfd # 1 \/ e.euid # s.ids[2]
BadCommand(s, e) == \/ s.p.res # "run" \/ ~Runnable(s.p.cmd) \/ s.cmd \/ s.hard \/ (~s.lost /\ (s.term \/ s.done))
                    \/ ~s.ready
                    \/ e.args # Tail(s.p.cmd)
                    \/ e.ids # <<s.ids[1], s.ids[1], s.ids[1], s.ids[4], s.ids[4], s.ids[4]>>
                    \/ e.sock = "" \/ e.mark # "m"
                    \* the socket it is told about is its own
                    \/ ~s.lost /\ ~(e.kind = "sock" /\ e.uid = s.ids[1] /\ e.gid = s.ids[4] /\ e.mode % 64 = 0 /\ (e.mode \div 64) \in {6, 7})
BadExit(s, e) == \/ e.code \notin 0..255 \/ s.done
                 \/ s.p.res = "info" /\ (e.code # 0 \/ s.sd # "no")
                 \/ s.p.res = "refuse" /\ (e.code = 0 \/ s.sd # "no")
                 \/ s.p.res = "run" /\ (s.hard \/ s.lost) /\ e.code = 0
                 \/ s.p.res = "run" /\ ~s.hard /\ ~s.lost /\ s.cmd /\ e.code # s.code
                 \/ s.p.res = "run" /\ ~s.cmd /\ e.code = 0
                 \* it gives up only for a reason
                 \/ s.p.res = "run" /\ ~s.hard /\ ~s.lost /\ ~s.cmd /\ ~s.ready /\ s.sd # "gone" /\ (s.sd = "up" \/ s.ids[2] = 0)
                 \* it runs the command unless something failed
                 \/ s.p.res = "run" /\ ~s.hard /\ ~s.lost /\ ~s.cmd /\ Runnable(s.p.cmd) /\ s.ids[2] \in {0, s.ids[1]} /\ ((s.good /\ s.sd # "gone") \/ (s.sd = "real" /\ s.p.lvl \in {"debug", "info", "error", "silent"}))

Bad(s, e) ==
  CASE e.t = "seatd" -> BadServer(s, e)
    [] e.t = "cmd" -> BadCommand(s, e)
    [] e.t = "ping" -> s.sd = "real" /\ ~s.lost /\ e.ok # 1
    [] e.t = "term" -> s.cmd /\ s.code = -1 /\ ~s.lost
    [] e.t = "exit" -> BadExit(s, e)
    [] e.t = "end" -> ~s.done \/ e.left # 0 \/ (s.sd = "up" /\ ~s.term)
    [] e.t = "hang" -> TRUE
    [] OTHER -> FALSE

RECURSIVE Follow(_, _)
Follow(s, log) == IF log = <<>> THEN [ok |-> s.done, s |-> s]
                  ELSE IF Bad(s, Head(log)) THEN [ok |-> FALSE, s |-> s]
                  ELSE Follow(Step(s, Head(log)), Tail(log))
=============================================================================
