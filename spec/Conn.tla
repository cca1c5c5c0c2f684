---------------------------------- MODULE Conn ----------------------------------
(***************************************************************************)
(* A connection (common/connection.c): bounded FIFO buffers of bytes and   *)
(* descriptors in both directions.  Bytes and descriptors are known by     *)
(* their position in their stream, so a buffer is an interval.             *)
(*   ip, in   first position and length of what was read but not consumed  *)
(*   h        bytes just before ip that can be pushed back                 *)
(*   fp, fn   same for received descriptors                                *)
(*   op, on   bytes put but not sent;  gp, gn descriptors put but not sent *)
(*   keep     received descriptors that did not fit and are not closed yet *)
(* Actions are records; what the kernel did (res: results of sendmsg,      *)
(* m: bytes handed over by recvmsg, cl: descriptors closed) is part of     *)
(* them.                                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CAP == 256
FDCAP == 64
EAGAIN == 11
EPIPE == 32
EOVERFLOW == 75

Start0 == [ip |-> 0, in |-> 0, h |-> 0, fp |-> 0, fn |-> 0, op |-> 0, on |-> 0, gp |-> 0, gn |-> 0, keep |-> {}, dead |-> FALSE]

\* one sendmsg: res > 0 bytes were taken together with all pending descriptors
Send1(s, res) == IF res > 0 THEN [s EXCEPT !.op = @ + res, !.on = @ - res, !.gp = @ + s.gn, !.gn = 0] ELSE s
RECURSIVE Sends(_, _)
Sends(s, res) == IF res = <<>> THEN s ELSE Sends(Send1(s, Head(res)), Tail(res))
\* results are possible ones, and nothing is sent after an error
SendsOk(s, res) ==
  \A j \in 1..Len(res) :
    /\ res[j] <= Sends(s, SubSeq(res, 1, j - 1)).on /\ res[j] # 0
    /\ Sends(s, SubSeq(res, 1, j - 1)).on > 0
    /\ res[j] \in {-EAGAIN, -EPIPE} => j = Len(res)
SendErr(res) == IF res # <<>> /\ res[Len(res)] \in {-EAGAIN, -EPIPE} THEN -res[Len(res)] ELSE 0

\* the results a scripted kernel gives: n > 0 takes at most n bytes, 0 is EAGAIN, -1 EINTR, -2 EPIPE; then everything
RECURSIVE ResOf(_, _)
ResOf(on, plan) ==
  IF on = 0 THEN <<>>
  ELSE IF plan = <<>> THEN <<on>>
  ELSE LET p == Head(plan) IN
       CASE p > 0 -> LET r == IF p < on THEN p ELSE on IN <<r>> \o ResOf(on - r, Tail(plan))
         [] p = 0 -> <<-EAGAIN>>
         [] p = -1 -> <<-4>> \o ResOf(on, Tail(plan))
         [] p = -2 -> <<-EPIPE>>

\* what the call must return: <<0, 0>> for success, <<-1, errno>>
Ok == <<0, 0>>
Fail(e) == <<-1, e>>

\* Step(s, a) = <<state, result>>
Step(s, a) ==
  CASE a.op = "put" ->
         LET t == Sends(s, a.res)  e == SendErr(a.res) IN
         IF s.on + a.n <= CAP THEN <<[t EXCEPT !.on = @ + a.n], Ok>>
         ELSE IF e # 0 THEN <<t, Fail(e)>>
         ELSE IF a.n > CAP THEN <<t, Fail(EOVERFLOW)>>
         ELSE <<[t EXCEPT !.on = @ + a.n], Ok>>
    [] a.op = "putfd" -> IF s.gn >= FDCAP THEN <<s, Fail(EOVERFLOW)>> ELSE <<[s EXCEPT !.gn = @ + 1], Ok>>
    [] a.op = "flush" -> LET t == Sends(s, a.res)  e == SendErr(a.res) IN <<t, IF e # 0 THEN Fail(e) ELSE Ok>>
    [] a.op = "read" ->
         IF s.in >= CAP THEN <<s, Fail(EOVERFLOW)>>
         ELSE IF a.n < 0 THEN <<s, Fail(EAGAIN)>>
         ELSE IF a.n = 0 THEN <<s, Ok>>
         ELSE IF s.fn + a.k > FDCAP
              THEN <<[s EXCEPT !.dead = TRUE, !.h = 0, !.keep = ((s.fp + s.fn)..(s.fp + s.fn + a.k - 1)) \ a.cl], Fail(EOVERFLOW)>>
         ELSE <<[s EXCEPT !.in = @ + a.m, !.fn = @ + a.k, !.h = 0], Ok>>
    [] a.op = "get" -> IF a.n > s.in THEN <<s, Fail(EAGAIN)>>
                       ELSE <<[s EXCEPT !.ip = @ + a.n, !.in = @ - a.n, !.h = @ + a.n], Ok>>
    [] a.op = "getfd" -> IF s.fn = 0 THEN <<s, Fail(EAGAIN)>> ELSE <<[s EXCEPT !.fp = @ + 1, !.fn = @ - 1], Ok>>
    [] a.op = "restore" -> <<[s EXCEPT !.ip = @ - a.n, !.in = @ + a.n, !.h = @ - a.n], Ok>>
    [] a.op = "closefds" -> <<[s EXCEPT !.fp = @ + s.fn, !.fn = 0, !.gp = @ + s.gn, !.gn = 0, !.keep = {}], Ok>>
    [] a.op = "spin" -> LET d == (5 * (a.n % 251)) % 251 IN <<[s EXCEPT !.ip = @ + d, !.op = @ + d, !.h = 0], Ok>>

\* is the action possible?
Legal(s, a) ==
  CASE a.op \in {"put", "flush"} -> ~s.dead /\ SendsOk(s, a.res) /\
                                    (a.op = "flush" => Sends(s, a.res).on = 0 \/ SendErr(a.res) # 0)
    [] a.op = "read" -> ~s.dead /\ (s.in < CAP /\ a.n > 0 => a.m >= 1 /\ a.m <= CAP - s.in /\ a.m <= a.n)
    [] a.op = "restore" -> a.n <= s.h
    [] a.op = "spin" -> s.in = 0 /\ s.on = 0 /\ s.gn = 0 /\ s.fn = 0 /\ ~s.dead
    [] OTHER -> TRUE

\* descriptors closed by action a: <<outgoing, incoming>>
Closed(s, a) ==
  CASE a.op \in {"put", "flush"} -> <<IF \E j \in 1..Len(a.res) : a.res[j] > 0 THEN s.gp..(s.gp + s.gn - 1) ELSE {}, {}>>
    [] a.op = "closefds" -> <<s.gp..(s.gp + s.gn - 1), (s.fp..(s.fp + s.fn - 1)) \cup s.keep>>
    [] OTHER -> <<{}, {}>>

\* properties of the specification
Bounded(s) == s.in \in 0..CAP /\ s.on \in 0..CAP /\ s.fn \in 0..FDCAP /\ s.gn \in 0..FDCAP /\ s.h >= 0
\* positions only move forward except by pushing back; nothing is skipped
Faithful(s, t, a) ==
  /\ a.op = "restore" \/ t.ip >= s.ip
  /\ t.ip + t.in >= s.ip + s.in
  /\ t.op >= s.op /\ t.op + t.on >= s.op + s.on
  /\ t.gp >= s.gp /\ t.gp + t.gn >= s.gp + s.gn
  /\ t.fp >= s.fp
  /\ (Step(s, a)[2] # Ok /\ a.op # "read" /\ ~(a.op \in {"put", "flush"})) => t = s
  /\ (Step(s, a)[2] # Ok /\ a.op \in {"put", "flush"}) => t.op + t.on = s.op + s.on /\ t.gp + t.gn = s.gp + s.gn
=============================================================================
