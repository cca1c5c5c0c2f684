--------------------------------- MODULE Libseat ---------------------------------
(***************************************************************************)
(* The client side of the protocol (libseat/backend/seatd.c) between an    *)
(* application and a server that may send anything.  A run is a log of     *)
(* events at the library's boundary:                                       *)
(*   srv, hup            the server sends bytes (and descriptors) or hangs up *)
(*   call, ret           the application's calls, possibly from callbacks  *)
(*   cb                  a listener callback                               *)
(*   connect, send, recv, poll   what the library asks of the kernel       *)
(*   oom                 there is no memory for what the library keeps     *)
(* Step follows the log; Bad says which aspects of the library's behaviour *)
(* an event violates:                                                      *)
(*   "events"  each event once, in order, inside the right calls; counts   *)
(*   "wake"    undelivered events wake the application                     *)
(*   "ret"     truthful results, no waiting for what is already there      *)
(*   "sent"    requests are sent as they are meant                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

SRV == 32768
OPENED == SRV + 1   CLOSED == SRV + 2   DEVOPENED == SRV + 3   DEVCLOSED == SRV + 4
DISABLE == SRV + 5  ENABLE == SRV + 6   PONG == SRV + 7        SWITCHED == SRV + 8
DISABLED == SRV + 9 ERR == 65535

U16(b, i) == b[i] + 256 * b[i + 1]
P16(n) == <<n % 256, n \div 256>>
I32(b, i) == LET hi == IF b[i + 3] >= 128 THEN b[i + 3] - 256 ELSE b[i + 3] IN
             b[i] + 256 * b[i + 1] + 65536 * b[i + 2] + 16777216 * hi
P32(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256>>
Hdr(op, size) == P16(op) \o P16(size)

\* the first message in b
HasHdr(b) == Len(b) >= 4
Op(b) == U16(b, 1)
Size(b) == U16(b, 3)
Whole(b) == HasHdr(b) /\ Len(b) >= 4 + Size(b)
Drop(b, n) == SubSeq(b, n + 1, Len(b))
IsEvent(b) == Op(b) \in {ENABLE, DISABLE} /\ Size(b) = 0
IsPong(b) == Op(b) = PONG /\ Size(b) = 0
\* neither of them has a body
Odd(b) == Op(b) \in {ENABLE, DISABLE, PONG} /\ Size(b) # 0
EvName(op) == IF op = ENABLE THEN "enable" ELSE "disable"

Requests == {"open_seat", "close_seat", "open_device", "close_device", "switch_session", "disable_seat"}
MAXPATH == 250
BadArgs(e) == \/ e.c \in {"close_device", "switch_session"} /\ e.v < 0
              \/ e.c = "open_device" /\ Len(e.p) + 1 > MAXPATH
Request(e) ==
  CASE e.c = "open_seat" -> Hdr(1, 0)
    [] e.c = "close_seat" -> Hdr(2, 0)
    [] e.c = "open_device" -> Hdr(3, Len(e.p) + 3) \o P16(Len(e.p) + 1) \o e.p \o <<0>>
    [] e.c = "close_device" -> Hdr(4, 4) \o P32(e.v)
    [] e.c = "disable_seat" -> Hdr(5, 0)
    [] e.c = "switch_session" -> Hdr(6, 4) \o P32(e.v)
PING == Hdr(7, 0)

Idle == [st |-> "none", sock |-> <<>>, ffd |-> <<>>, eof |-> FALSE, rx |-> <<>>, rfd |-> <<>>, q |-> <<>>,
         pings |-> 0, old |-> 0, out |-> <<>>, sent |-> <<>>, want |-> <<>>, name |-> <<>>, stack |-> <<>>, off |-> FALSE]

Top(s) == s.stack[Len(s.stack)]
SetTop(s, f) == [s EXCEPT !.stack[Len(s.stack)] = f]
InCall(s) == s.stack # <<>>
\* n bytes taken from the front of the stream; what was read before a ping was sent cannot answer it
Take(s, n) == [s EXCEPT !.rx = Drop(@, n), !.old = IF @ > n THEN @ - n ELSE 0]

\* events and pongs are taken from the front of the stream as soon as they are complete
RECURSIVE Parse(_)
Parse(s) ==
  IF ~HasHdr(s.rx) THEN s
  ELSE LET s1 == IF InCall(s) THEN SetTop(s, [Top(s) EXCEPT !.m = @ + 1]) ELSE s IN
       IF IsEvent(s.rx) THEN Parse([Take(s1, 4) EXCEPT !.q = Append(@, EvName(Op(s.rx)))])
       ELSE IF IsPong(s.rx) THEN Parse([Take(s1, 4) EXCEPT !.pings = IF @ > 0 /\ s.old = 0 THEN @ - 1 ELSE @])
       ELSE s

\* what was sent falls into messages; pings are counted, requests remembered
RECURSIVE Cut(_)
Cut(s) ==
  IF ~Whole(s.out) THEN s
  ELSE LET m == SubSeq(s.out, 1, 4 + Size(s.out)) IN
       Cut(IF m = PING THEN [s EXCEPT !.out = Drop(@, 4), !.pings = @ + 1, !.old = Len(s.rx)]
           ELSE [s EXCEPT !.out = Drop(@, Len(m)), !.sent = Append(@, m)])

----------------------------------------------------------------------------
\* the reply in front of the stream, if complete
Replied(s) == Whole(s.rx) /\ ~IsEvent(s.rx) /\ ~IsPong(s.rx)
\* a message that can never be received, or is wrong whatever follows
TooBig(s) == HasHdr(s.rx) /\ (4 + Size(s.rx) > 256 \/ Odd(s.rx))

NameIn(b, n) == SubSeq(b, 7, 6 + n)
\* the seat's name: NUL terminated, at most 64 bytes with its NUL; old servers leave the NUL out
NameOk(b) == LET n == U16(b, 5)  x == NameIn(b, n)
                 body == IF n > 0 /\ x[n] = 0 THEN SubSeq(x, 1, n - 1) ELSE x IN
             /\ \A j \in 1..Len(body) : body[j] # 0
             /\ Len(body) <= 63
NameOf(b) == LET n == U16(b, 5)  x == NameIn(b, n) IN IF n > 0 /\ x[n] = 0 THEN SubSeq(x, 1, n - 1) ELSE x

Kind(s, f) ==   \* "good", "error" (the server refused) or "bad"
  LET b == s.rx IN
  IF Op(b) = ERR THEN IF Size(b) = 4 THEN "error" ELSE "bad"
  ELSE CASE f.c = "open_seat" -> IF Op(b) = OPENED /\ Size(b) >= 2 /\ U16(b, 5) = Size(b) - 2 /\ U16(b, 5) <= 64 /\ NameOk(b) THEN "good" ELSE "bad"
         [] f.c = "close_seat" -> IF Op(b) = CLOSED /\ Size(b) = 0 THEN "good" ELSE "bad"
         [] f.c = "open_device" -> IF Op(b) = DEVOPENED /\ Size(b) = 4 /\ s.rfd # <<>> THEN "good" ELSE "bad"
         [] f.c = "close_device" -> IF Op(b) = DEVCLOSED /\ Size(b) = 0 THEN "good" ELSE "bad"
         [] f.c = "switch_session" -> IF Op(b) = SWITCHED /\ Size(b) = 0 THEN "good" ELSE "bad"
         [] f.c = "disable_seat" -> IF Op(b) = DISABLED /\ Size(b) = 0 THEN "good" ELSE "bad"

\* the result a request must have: [v, err (0: any non-zero), fd]
Must(s, f) ==
  IF f.pre = "err" \/ f.inval \/ ~Replied(s) THEN [v |-> -1, err |-> 0, fd |-> 0]
  ELSE CASE Kind(s, f) = "error" -> [v |-> -1, err |-> I32(s.rx, 5), fd |-> 0]
         [] Kind(s, f) = "bad" -> [v |-> -1, err |-> 0, fd |-> 0]
         [] f.c = "open_device" -> [v |-> I32(s.rx, 5), err |-> 0, fd |-> s.rfd[1]]
         [] OTHER -> [v |-> 0, err |-> 0, fd |-> 0]

Lost(s) == [s EXCEPT !.st = "err", !.rfd = <<>>]
Gone(s) == [Idle EXCEPT !.stack = s.stack]

\* the reply in front of the stream is taken; callbacks inside open_seat and close_seat come after that
Finish(s) ==
  LET f == Top(s)
      t == SetTop(s, [f EXCEPT !.done = TRUE, !.must = Must(s, f), !.early = ~Replied(s) /\ ~TooBig(s)])
  IN
  CASE f.done \/ f.c \notin Requests -> s
    [] f.pre = "err" \/ f.inval -> t
    [] ~Replied(s) -> Lost(t)
    [] Kind(s, f) = "good" ->
         Parse([Take(t, 4 + Size(s.rx)) EXCEPT !.rfd = IF f.c = "open_device" THEN Tail(@) ELSE @,
                                               !.name = IF f.c = "open_seat" THEN NameOf(s.rx) ELSE @])
    [] Kind(s, f) = "error" -> Parse(Take(t, 8))
    [] OTHER -> Lost(t)

\* what follows a reply must be events
Settle(s) == IF HasHdr(s.rx) THEN Lost(s) ELSE s
Pop(s) == LET t == [s EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)] IN
          IF t.st = "err" /\ t.stack = <<>> THEN [t EXCEPT !.q = <<>>] ELSE t

RetStep(s, e) ==
  LET f == Top(s)  t == Finish(s) IN
  CASE f.c = "dispatch" -> Pop(IF f.pre # "err" /\ e.v = -1 THEN Lost(s) ELSE s)
    [] f.c \in {"seat_name", "get_fd"} -> Pop(s)
    [] f.c = "close_seat" \/ (f.c = "open_seat" /\ (Top(t).must.v = -1 \/ (f.oom /\ e.v = -1))) -> Pop(Gone(t))
    [] f.pre = "err" \/ f.inval \/ t.st = "err" -> Pop(t)
    [] OTHER -> Pop(Settle(t))

Step(s, e) ==
  CASE e.t = "srv" -> [s EXCEPT !.sock = @ \o e.b, !.ffd = @ \o e.ids]
    [] e.t = "hup" -> [s EXCEPT !.eof = TRUE]
    [] e.t = "call" ->
         LET f == [c |-> e.c, v |-> e.v, pre |-> s.st, inval |-> BadArgs(e), n |-> 0, m |-> 0, io |-> FALSE, eof |-> FALSE, oom |-> FALSE, nested |-> FALSE, waited |-> FALSE,
                  done |-> FALSE, early |-> FALSE, must |-> [v |-> 0, err |-> 0, fd |-> 0]]
             s1 == IF InCall(s) THEN SetTop(s, [Top(s) EXCEPT !.nested = TRUE]) ELSE s
             s2 == [s1 EXCEPT !.stack = Append(@, f)]
             s3 == IF e.c = "open_seat" THEN [s2 EXCEPT !.st = "ok"] ELSE s2
         IN IF e.c \in Requests /\ s3.st = "ok" /\ ~BadArgs(e) THEN [s3 EXCEPT !.want = Append(@, Request(e))] ELSE s3
    [] e.t = "connect" -> IF e.r = 0 THEN s ELSE SetTop([s EXCEPT !.want = <<>>], [Top(s) EXCEPT !.io = TRUE])
    [] e.t = "send" -> IF e.r > 0 THEN Cut([s EXCEPT !.out = @ \o SubSeq(e.b, 1, e.r)])
                       ELSE IF e.r = -4 THEN s ELSE SetTop(s, [Top(s) EXCEPT !.io = TRUE])
    [] e.t = "recv" ->
         IF e.n > 0 THEN Parse([SetTop(s, [Top(s) EXCEPT !.waited = TRUE]) EXCEPT !.rx = @ \o SubSeq(s.sock, 1, e.n), !.sock = Drop(@, e.n),
                                         !.rfd = @ \o SubSeq(s.ffd, 1, e.nf), !.ffd = Drop(@, e.nf)])
         ELSE IF e.n \in {-4, -11} THEN s
         ELSE SetTop(s, [Top(s) EXCEPT !.io = TRUE, !.eof = TRUE])
    [] e.t = "poll" -> SetTop(s, [Top(s) EXCEPT !.io = @ \/ e.re >= 16, !.waited = @ \/ e.tmo # 0])
    [] e.t = "cb" -> LET t == Finish(s) IN SetTop([t EXCEPT !.q = IF @ # <<>> THEN Tail(@) ELSE @], [Top(t) EXCEPT !.n = @ + 1])
    \* a message that cannot be kept would be lost: the connection is given up
    [] e.t = "oom" -> Lost(SetTop(s, [Top(s) EXCEPT !.io = TRUE, !.oom = TRUE]))
    [] e.t = "ret" -> RetStep(s, e)
    [] OTHER -> s

NonZero(x) == x # 0
IsPrefix2(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

\* aspects violated by event e in state s
BadRet(s, e) ==
  LET f == Top(s)  u == Step(s, e)  outer == Len(s.stack) = 1 IN
  CASE f.c = "dispatch" ->
         LET wrong == HasHdr(s.rx) /\ s.st # "err"   \* something that is no event
             lost == f.eof \/ f.io \/ s.st = "err"
         IN (IF \/ f.pre = "err" /\ ~(e.v = -1 /\ e.err # 0)
                \/ f.pre # "err" /\ e.v = -1 /\ ~(e.err # 0 /\ (wrong \/ lost))
                \/ f.pre # "err" /\ e.v # -1 /\ wrong
                \/ f.pre # "err" /\ e.v = 0 /\ f.eof
                \/ f.pre # "err" /\ e.v = 0 /\ f.v # 0 /\ ~f.waited
                \/ f.pre = "err" /\ f.n > 0
             THEN {"ret"} ELSE {})
            \cup (IF f.pre # "err" /\ e.v >= 0 /\ ((e.v > 0) # (f.m + f.n > 0)) THEN {"events"} ELSE {})
            \cup (IF f.pre # "err" /\ e.v >= 0 /\ s.st # "err" /\ ~f.nested /\ s.q # <<>> THEN {"events"} ELSE {})
            \cup (IF outer /\ u.st = "ok" /\ u.q # <<>> /\ u.pings = 0 /\ u.sock = <<>> THEN {"wake"} ELSE {})
    [] f.c = "seat_name" -> IF e.name = s.name THEN {} ELSE {"ret"}
    [] f.c = "get_fd" -> IF (s.st = "ok") = (e.v >= 0) /\ (e.v = -1 => e.err # 0) THEN {} ELSE {"ret"}
    [] f.c \in Requests ->
         LET g == Top(Finish(s))  m == g.must IN
         (IF f.oom /\ e.v = -1 THEN IF e.err # 0 /\ e.fd = 0 THEN {} ELSE {"ret"}
          ELSE IF
             \/ e.v # m.v \/ e.fd # m.fd
             \/ m.v = -1 /\ (IF m.err # 0 THEN e.err # m.err ELSE e.err = 0)
             \* giving up needs a reason
             \/ f.pre # "err" /\ ~f.inval /\ g.early /\ ~f.io
             \/ e.fd > 0 /\ e.clo # 1
          THEN {"ret"} ELSE {})
         \cup (IF u.st = "ok" /\ (u.out # <<>> \/ u.sent # u.want) THEN {"sent"} ELSE {})
         \cup (IF ~IsPrefix2(s.sent, s.want) THEN {"sent"} ELSE {})
         \cup (IF outer /\ u.st = "ok" /\ u.q # <<>> /\ u.pings = 0 /\ u.sock = <<>> THEN {"wake"} ELSE {})
    [] OTHER -> {}

Bad(s, e) ==
  CASE e.t \in {"send", "recv", "poll", "connect", "oom"} /\ ~InCall(s) -> {"ret"}
    [] e.t = "cb" ->
         IF InCall(s) /\ Top(s).c = "close_seat" /\ Top(s).pre = "err" THEN {}   \* what is left of a lost connection
         ELSE IF /\ InCall(s)
                 /\ s.q # <<>> /\ Head(s.q) = e.e /\ e.ok = 1
                 /\ Top(s).c \in {"open_seat", "dispatch", "close_seat"}
                 /\ (Top(s).c = "open_seat" => Top(Finish(s)).must.v = 0)
              THEN {} ELSE {"events"}
    [] e.t = "poll" ->
         LET f == Top(s) IN
         IF f.c = "dispatch"
         THEN IF e.tmo # 0 /\ (e.tmo # f.v \/ s.q # <<>> \/ f.m + f.n > 0 \/ HasHdr(s.rx)) THEN {"ret"} ELSE {}
         ELSE IF e.tmo # 0 /\ (Replied(s) \/ f.pre = "err" \/ f.inval \/ f.c \notin Requests) THEN {"ret"} ELSE {}
    [] e.t = "send" -> IF (Top(s).pre = "err" \/ Top(s).inval) /\ e.r > 0 THEN {"sent"} ELSE {}
    [] e.t = "ret" -> BadRet(s, e)
    [] OTHER -> {}

\* follow a log as far as F is concerned
RECURSIVE Replay(_, _, _)
Replay(s, log, F) ==
  IF log = <<>> \/ s.off THEN [ok |-> TRUE, s |-> s]
  ELSE LET b == Bad(s, Head(log)) IN
       IF b \cap F # {} THEN [ok |-> FALSE, s |-> s]
       ELSE IF b # {} THEN [ok |-> TRUE, s |-> [s EXCEPT !.off = TRUE]]
       ELSE Replay(Step(s, Head(log)), Tail(log), F)

\* descriptors the library holds between calls
Held(s) == (IF s.st = "ok" THEN 1 ELSE 0) + Len(s.rfd)
=============================================================================
