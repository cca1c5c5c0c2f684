--------------------------------- MODULE Poller ---------------------------------
(***************************************************************************)
(* The event loop of seatd/poller.c.  src[id] is the id-th source that was *)
(* ever added:                                                             *)
(*   k      "fd" or "sig";  x  its descriptor or signal;  m  its mask      *)
(*   live   not destroyed                                                  *)
(*   owed   a signal arrived since its last call                           *)
(*   rev    what the last poll reported for it (0: nothing or not polled)  *)
(*   must   owed when the last poll returned;  called  in this round       *)
(* Masks are those of poller.h: 1 readable, 4 writable, 8 error, 16 hangup *)
(* What happens in a round is a log of events; Replay says which logs are  *)
(* allowed, in whatever order the implementation calls its sources.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Bit(x, b) == (x \div b) % 2 = 1
\* what poll reports for readiness r when m is asked for
Reported(r, m) == (IF Bit(r, 1) /\ Bit(m, 1) THEN 1 ELSE 0) + (IF Bit(r, 4) /\ Bit(m, 4) THEN 4 ELSE 0)
                  + (IF Bit(r, 8) THEN 8 ELSE 0) + (IF Bit(r, 16) THEN 16 ELSE 0)

Source(k, x, m) == [k |-> k, x |-> x, m |-> m, live |-> TRUE, owed |-> FALSE, rev |-> 0, must |-> FALSE, called |-> FALSE]
Live(s, k) == {i \in 1..Len(s) : s[i].live /\ s[i].k = k}
Arrive(s, sig) == [i \in 1..Len(s) |-> IF s[i].live /\ s[i].k = "sig" /\ s[i].x = sig THEN [s[i] EXCEPT !.owed = TRUE] ELSE s[i]]
\* signals somebody listens to
Caught(s) == {s[i].x : i \in Live(s, "sig")}

\* a poll: q is the sequence of [fd, ev, re] that was polled
PollOk(s, q) ==
  LET L == Live(s, "fd") IN
  /\ Len(q) = Cardinality(L)
  /\ \A i \in L : Cardinality({j \in 1..Len(q) : q[j].fd = s[i].x /\ q[j].ev = s[i].m})
                  = Cardinality({j \in L : s[j].x = s[i].x /\ s[j].m = s[i].m})
PollStart(s, q) ==
  [i \in 1..Len(s) |->
     IF s[i].live /\ s[i].k = "fd"
     THEN [s[i] EXCEPT !.called = FALSE, !.must = FALSE, !.rev = q[CHOOSE j \in 1..Len(q) : q[j].fd = s[i].x /\ q[j].ev = s[i].m].re]
     ELSE [s[i] EXCEPT !.called = FALSE, !.rev = 0, !.must = s[i].live /\ s[i].owed]]

\* is event e allowed in state s, and what does it lead to?
EvOk(s, e) ==
  CASE e.t \in {"errno", "polls"} -> FALSE
    [] e.t = "raise" -> e.v \in Caught(s)
    [] e.t = "noraise" -> e.v \notin Caught(s)
    [] e.t \in {"addfd", "addsig"} -> e.id = Len(s) + 1
    [] e.t \in {"destroy", "update"} -> e.id \in 1..Len(s) /\ s[e.id].live
    [] e.t = "poll" -> PollOk(s, e.q)
    [] e.t = "block" -> \A i \in 1..Len(s) : s[i].live => ~s[i].owed /\ s[i].rev = 0
    [] e.t = "call" -> /\ e.id \in 1..Len(s) /\ s[e.id].live
                       /\ IF s[e.id].k = "fd" THEN s[e.id].rev # 0 /\ ~s[e.id].called /\ e.v = s[e.id].rev
                          ELSE s[e.id].owed /\ e.v = s[e.id].x
EvStep(s, e) ==
  CASE e.t = "raise" -> Arrive(s, e.v)
    [] e.t = "addfd" -> Append(s, Source("fd", e.x, e.v))
    [] e.t = "addsig" -> Append(s, Source("sig", e.v, 0))
    [] e.t = "destroy" -> [s EXCEPT ![e.id].live = FALSE]
    [] e.t = "update" -> [s EXCEPT ![e.id].m = e.v]
    [] e.t = "poll" -> PollStart(s, e.q)
    [] e.t = "call" -> [s EXCEPT ![e.id].called = TRUE, ![e.id].owed = FALSE]
    [] OTHER -> s
\* everything that had to be called in this round was
RoundOk(s) == \A i \in 1..Len(s) : s[i].live => /\ (s[i].k = "fd" /\ s[i].rev # 0) => s[i].called
                                                /\ s[i].must => s[i].called
EndRound(s) == [i \in 1..Len(s) |-> [s[i] EXCEPT !.rev = 0, !.must = FALSE, !.called = FALSE]]

RECURSIVE Replay(_, _)
\* the state after a log, or <<"bad", n>> with the number of events left
Replay(s, log) ==
  IF log = <<>> THEN [ok |-> TRUE, s |-> s]
  ELSE IF ~EvOk(s, Head(log)) THEN [ok |-> FALSE, s |-> s]
  ELSE Replay(EvStep(s, Head(log)), Tail(log))

----------------------------------------------------------------------------
(***************************************************************************)
(* The algorithm: one round of the loop with the newest source first, a    *)
(* self-pipe, and signals that may arrive at the points                    *)
(*   before  the round;  intr  while polling;  late  after polling;        *)
(*   mid/drain  while/after the pipe is emptied;  or in a callback.        *)
(* w = [s, pipe, log, cb]; cb: operations to perform in the callbacks of   *)
(* given sources, each once.                                               *)
(***************************************************************************)
Ev(w, e) == [w EXCEPT !.s = EvStep(@, e), !.log = Append(@, e)]
Raise(w, sig) == IF sig \in Caught(w.s) THEN [Ev(w, [t |-> "raise", v |-> sig]) EXCEPT !.pipe = TRUE]
                 ELSE Ev(w, [t |-> "noraise", v |-> sig])
LiveSeq(s) == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i].live)
\* o = <<name, args>>; sources are named by their rank among the live ones
DoOp(w, o) ==
  LET L == LiveSeq(w.s) IN
  CASE o[1] = "addfd" -> Ev(w, [t |-> "addfd", id |-> Len(w.s) + 1, x |-> o[2], v |-> o[3]])
    [] o[1] = "addsig" -> Ev(w, [t |-> "addsig", id |-> Len(w.s) + 1, v |-> o[2]])
    [] o[1] = "destroy" -> IF o[2] \in 1..Len(L) THEN Ev(w, [t |-> "destroy", id |-> L[o[2]]]) ELSE w
    [] o[1] = "update" -> IF o[2] \in 1..Len(L) /\ w.s[L[o[2]]].k = "fd" THEN Ev(w, [t |-> "update", id |-> L[o[2]], v |-> o[3]]) ELSE w
    [] o[1] = "raise" -> Raise(w, o[2])
    [] OTHER -> w

RECURSIVE Ops(_, _)
Ops(w, q) == IF q = <<>> THEN w ELSE Ops(DoOp(w, Head(q).o), Tail(q))
Call(w, i, v) ==
  LET w1 == Ev(w, [t |-> "call", id |-> i, v |-> v])
      mine == SelectSeq(w.cb, LAMBDA c : c.id = i)
  IN Ops([w1 EXCEPT !.cb = SelectSeq(@, LAMBDA c : c.id # i)], mine)
RECURSIVE Loop(_, _)
Loop(w, ids) ==
  IF ids = <<>> THEN w
  ELSE LET i == Head(ids)  x == w.s[i] IN
       IF x.live /\ x.k = "sig" /\ x.owed THEN Loop(Call(w, i, x.x), Tail(ids))
       ELSE IF x.live /\ x.k = "fd" /\ x.rev # 0 THEN Loop(Call(w, i, x.rev), Tail(ids))
       ELSE Loop(w, Tail(ids))
Newest(s, k) == Reverse(SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i].k = k))
\* ready[x]: readiness of descriptor x
Round(w0, when, sig, ready, cb) ==
  LET at(w, p) == IF when = p THEN Raise(w, sig) ELSE w
      L == LiveSeq(w0.s)
      w1 == at(at([w0 EXCEPT !.log = <<>>, !.cb = [j \in 1..Len(cb) |-> [id |-> IF cb[j].r \in 1..Len(L) THEN L[cb[j].r] ELSE 0, o |-> cb[j].o]]], "before"), "intr")
      fdl == Newest([i \in 1..Len(w1.s) |-> IF w1.s[i].live THEN w1.s[i] ELSE [w1.s[i] EXCEPT !.k = "dead"]], "fd")
      w2 == Ev(w1, [t |-> "poll", q |-> [j \in 1..Len(fdl) |-> [fd |-> w1.s[fdl[j]].x, ev |-> w1.s[fdl[j]].m,
                                                               re |-> Reported(ready[w1.s[fdl[j]].x], w1.s[fdl[j]].m)]]])
      idle == ~w2.pipe /\ \A i \in 1..Len(w2.s) : w2.s[i].rev = 0
      wake == w2.pipe
      w3 == at(w2, "late")
      w4 == IF wake THEN at([at(w3, "mid") EXCEPT !.pipe = FALSE], "drain") ELSE w3
      w5 == IF wake THEN Loop(w4, Newest(w4.s, "sig")) ELSE w4
      w6 == Loop(w5, Newest(w5.s, "fd"))
  IN IF idle THEN Ev(w2, [t |-> "block"]) ELSE w6
=============================================================================
