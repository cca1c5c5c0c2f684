--------------------------------- MODULE Backend ---------------------------------
(***************************************************************************)
(* Which backend libseat_open_seat uses, and the no-op backend.            *)
(*   open NAME LISTENER MODES: MODES says what becomes of each backend     *)
(* A run is a list of operations, each with a log of events:               *)
(*   try   a backend starts to open (b)                                    *)
(*   cb    a listener callback (v: 1 enable, 0 disable; ok: its arguments) *)
(*   idle  the library waits while there is nothing to read (tmo)          *)
(*   hang  it does so for good                                             *)
(*   ret   the result: v, errno, seat name, what file an opened descriptor *)
(*         is and its flags, whether there is an embedded server (kid) and *)
(*         its exit status once the seat is closed (kst)                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Order == <<"seatd", "logind", "builtin">>           \* the fixed order
Backends == {"seatd", "logind", "builtin", "noop"}
\* does backend b open under these circumstances?
Opens(b, m) == CASE b = "seatd" -> m.seatd = "o" [] b = "logind" -> m.logind = "o" [] b = "builtin" -> m.builtin = "o" [] b = "noop" -> m.noop = "o"
\* the backends that are tried, in order
Tried(name, m) ==
  IF name = "unset" THEN LET ok == {j \in 1..3 : Opens(Order[j], m)} IN
       IF ok = {} THEN Order ELSE SubSeq(Order, 1, CHOOSE j \in ok : \A x \in ok : j <= x)
  ELSE IF name \in Backends THEN <<name>> ELSE <<>>
\* the one that is used; "none" is failure
Used(name, listener, m) ==
  IF listener # "ok" THEN "none"
  ELSE LET t == Tried(name, m) IN IF t = <<>> \/ ~Opens(t[Len(t)], m) THEN "none" ELSE t[Len(t)]

Idle == [st |-> "none", init |-> FALSE, n |-> 0]     \* n: enables delivered so far
OpenErr == [link |-> 40, sub |-> 21, none |-> 2]      \* ELOOP, EISDIR, ENOENT
Files == <<"a", "b", "fifo", "ro">>

After(s, a) ==
  CASE a.op = "open" /\ s.st = "none" -> LET u == Used(a.x, a.y, a.m) IN [Idle EXCEPT !.st = u, !.init = (u = "noop")]
    [] a.op = "close_seat" -> Idle
    [] a.op = "dispatch" /\ s.st = "noop" /\ s.init -> [s EXCEPT !.init = FALSE, !.n = @ + 1]
    [] OTHER -> s
Enabled(s, a) == IF a.op = "open" THEN s.st = "none" ELSE IF a.op = "end" THEN TRUE
                 ELSE s.st = "noop" \/ (s.st # "none" /\ a.op \in {"seat_name", "close_seat"})

Evs(log, t) == SelectSeq(log, LAMBDA e : e.t = t)
RECURSIVE Dedup(_)
Dedup(q) == IF Len(q) < 2 THEN q ELSE IF q[1] = q[2] THEN Dedup(Tail(q)) ELSE <<q[1]>> \o Dedup(Tail(q))
Tries(log) == LET q == Evs(log, "try") IN Dedup([j \in 1..Len(q) |-> q[j].b])
Name(b) == CASE b = "seatd" -> "seatS" [] b = "logind" -> "seatZ" [] OTHER -> "seat0"

\* is this log one of the operation a in state s?
Ok(s, a, log) ==
  IF ~Enabled(s, a) \/ a.op = "end" THEN TRUE ELSE
  LET r == log[Len(log)]
      fails == r.v = -1 /\ r.err # 0
      quiet == Evs(log, "idle") = <<>>
      cbs == Evs(log, "cb")
  IN
  /\ log # <<>> /\ r.t = "ret" /\ Evs(log, "hang") = <<>>
  /\ CASE a.op = "open" ->
            LET u == Used(a.x, a.y, a.m) IN
            /\ cbs = <<>>
            /\ Tries(log) = IF a.y # "ok" THEN <<>> ELSE SelectSeq(Tried(a.x, a.m), LAMBDA b : b # "noop")
            /\ IF u = "none" THEN fails ELSE r.v = 0 /\ r.name = Name(u) /\ r.kid = (IF u = "builtin" THEN 1 ELSE 0)
       [] a.op = "close_seat" -> r.v = 0 /\ (s.st = "noop" => cbs = <<>>) /\ (IF s.st = "builtin" THEN r.kst = 0 ELSE r.kst = -1)
       [] a.op = "seat_name" -> r.name = Name(s.st)
       [] a.op = "get_fd" -> r.v >= 0
       [] a.op = "dispatch" ->
            IF s.init THEN quiet /\ Len(cbs) = 1 /\ cbs[1].v = 1 /\ cbs[1].ok = 1 /\ r.v > 0
            ELSE /\ cbs = <<>> /\ r.v = 0
                 /\ IF a.n = 0 THEN quiet ELSE LET q == Evs(log, "idle") IN Len(q) >= 1 /\ q[1].tmo = a.n
       [] a.op = "open_device" ->
            /\ cbs = <<>> /\ quiet
            /\ IF a.x \in DOMAIN OpenErr THEN r.v = -1 /\ r.err = OpenErr[a.x]
               ELSE r.v >= 0 /\ r.file >= 0 /\ Files[r.file + 1] = a.x /\ r.clo = 1 /\ r.nb = 1 /\ r.rw = 1
       [] a.op = "switch_session" -> cbs = <<>> /\ quiet /\ fails
       [] OTHER -> cbs = <<>> /\ quiet /\ r.v = 0
\* descriptors of the library's own between operations
Held(s) == CASE s.st = "none" -> 0 [] s.st = "noop" -> 2 [] OTHER -> 1
=============================================================================
