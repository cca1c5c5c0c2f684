---------------------------------- MODULE Startup ----------------------------------
(***************************************************************************)
(* How seatd claims its socket path (seatd/seatd.c).  A run of the server  *)
(* is a log of what it does to the path and of what clients would see:     *)
(*   fault, race          a failure injected, a file appearing just before bind *)
(*   bind, touch          the path bound; removed, renamed, chmodded, chowned *)
(*   ready, rclose        bytes on the readiness descriptor; its end       *)
(*   serve                the server waits for clients                     *)
(*   client, exit         a client's ping, the end of the process          *)
(* Bad tells whether an event breaks the rules.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Uid(u) == CASE u = "root" -> 0 [] u = "daemon" -> 1 [] u = "bin" -> 2 [] OTHER -> -1
NFD == "9"
Levels == {"debug", "info", "error", "silent"}

\* the command line: [res, uid, gid, z, n]
RECURSIVE Parse(_, _)
Parse(o, p) ==
  IF o = <<>> \/ p.res # "run" THEN p
  ELSE LET f == Head(o)[1]  a == Head(o)[2]
           fail == [p EXCEPT !.res = "refuse"]
           q == CASE f \in {"u", "g", "n", "l"} /\ a = "" -> fail
                  [] f = "u" -> IF p.z \/ Uid(a) = -1 THEN fail ELSE [p EXCEPT !.uid = Uid(a)]
                  [] f = "g" -> IF p.z \/ Uid(a) = -1 THEN fail ELSE [p EXCEPT !.gid = Uid(a)]
                  [] f = "z" -> IF p.uid # -1 \/ p.gid # -1 THEN fail ELSE [p EXCEPT !.z = TRUE]
                  [] f = "n" -> IF a = NFD THEN [p EXCEPT !.n = TRUE] ELSE fail
                  [] f = "l" -> IF a \in Levels THEN p ELSE fail
                  [] f \in {"v", "h"} -> [p EXCEPT !.res = "info"]
                  [] OTHER -> fail
       IN Parse(Tail(o), q)
Opts(o) == Parse(o, [res |-> "run", uid |-> -1, gid |-> -1, z |-> FALSE, n |-> FALSE])

Objects == {"none", "sock", "file", "dir", "fifo", "lnsock", "lnfile", "lnnone"}
Kind(obj) == IF obj \in {"lnsock", "lnfile", "lnnone"} THEN "link" ELSE obj
\* the server may take the path over
MayClaim(p, obj) == p.res = "run" /\ (obj = "none" \/ (obj = "sock" /\ ~p.z))

Begin(obj, a) == [p |-> Opts(a.opts), obj |-> obj, own |-> FALSE, cleared |-> FALSE, fault |-> FALSE, race |-> FALSE,
                  rdy |-> 0, rcl |-> FALSE, srv |-> FALSE, end |-> a.end, done |-> FALSE, after |-> obj]

\* what a client finds once the server is up
Up(s, e) == /\ e.kind = "sock" /\ e.mine = 1 /\ e.conn = 1
            /\ (s.p.uid # -1 \/ s.p.gid # -1 =>
                  e.mode = 504 /\ (s.p.uid # -1 => e.uid = s.p.uid) /\ (s.p.gid # -1 => e.gid = s.p.gid))   \* 0770

Step(s, e) ==
  CASE e.t = "fault" -> [s EXCEPT !.fault = TRUE]
    [] e.t = "race" -> [s EXCEPT !.race = TRUE]
    [] e.t = "bind" -> IF e.r = 0 /\ e.ours = 1 THEN [s EXCEPT !.own = TRUE] ELSE s
    [] e.t = "touch" -> IF e.c = "unlink" /\ e.r = 0 /\ e.mine = 0 THEN [s EXCEPT !.cleared = TRUE] ELSE s
    [] e.t = "ready" -> [s EXCEPT !.rdy = @ + 1]
    [] e.t = "rclose" -> [s EXCEPT !.rcl = TRUE]
    [] e.t = "serve" -> [s EXCEPT !.srv = TRUE]
    [] e.t = "exit" -> [s EXCEPT !.done = TRUE, !.after = IF e.same = 1 /\ e.kind # "sock" THEN s.obj ELSE IF e.kind \in {"sock", "file", "dir", "fifo"} THEN e.kind ELSE "none"]
    [] OTHER -> s

BadExit(s, e) ==
  LET started == s.srv  claim == MayClaim(s.p, s.obj) IN
  \/ s.p.res = "info" /\ e.code # 0
  \/ ~claim /\ s.p.res # "info" /\ e.code = 0
  \/ started /\ e.code # 0
  \/ ~started /\ claim /\ e.code = 0
  \* it starts unless something failed
  \/ claim /\ ~started /\ ~s.fault /\ ~s.race
  \/ e.code \notin 0..255
  \* what it refused to touch is still there, untouched
  \/ ~claim /\ e.same # 1
  \/ ~s.own /\ ~s.cleared /\ ~s.race /\ e.same # 1
  \/ s.race /\ ~s.own /\ e.kind # "file"
  \* and nothing is left of a server that was told to stop
  \/ started /\ s.end # "kill" /\ ~s.fault /\ e.kind # "none"
  \* exactly one newline for the supervisor
  \/ e.got # (IF s.rdy = 1 THEN "N" ELSE "")
  \/ started /\ s.p.n /\ ~s.fault /\ ~(s.rdy = 1 /\ s.rcl)

Bad(s, e) ==
  CASE e.t = "bind" -> e.r = 0 /\ (~MayClaim(s.p, s.obj) \/ e.ours = 0)
    [] e.t = "touch" -> \/ e.c = "rename"
                        \/ e.r = 0 /\ e.mine = 0 /\ e.kind # "none" /\ ~(e.c = "unlink" /\ e.kind = "sock" /\ s.obj = "sock" /\ MayClaim(s.p, s.obj))
    [] e.t = "ready" -> e.b # "N" \/ ~s.p.n \/ s.rdy > 0 \/ s.rcl \/ s.srv \/ ~Up(s, e)
    [] e.t = "rclose" -> ~s.p.n \/ (s.rdy = 0 /\ ~s.fault)
    [] e.t = "serve" -> ~MayClaim(s.p, s.obj) \/ ~Up(s, e) \/ (s.p.n /\ ~(s.rcl /\ (s.rdy = 1 \/ s.fault)))
    [] e.t = "client" -> e.ok # 1
    [] e.t = "exit" -> BadExit(s, e)
    [] OTHER -> FALSE

RECURSIVE Follow(_, _)
Follow(s, log) == IF log = <<>> THEN [ok |-> s.done, s |-> s]
                  ELSE IF Bad(s, Head(log)) THEN [ok |-> FALSE, s |-> s]
                  ELSE Follow(Step(s, Head(log)), Tail(log))
=============================================================================
