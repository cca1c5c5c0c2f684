------------------------------- MODULE MCLibseat -------------------------------
(***************************************************************************)
(* libseat's algorithm (buffering, event queue, pings) against every small *)
(* server: the log of each call must be one Libseat.tla has no objection   *)
(* to.  The edges of the graph are replayed into the real library.         *)
(***************************************************************************)
EXTENDS Libseat, TLC, TLCExt, Json
CONSTANTS Calls,     \* what the application does
          Segs,      \* what the server can do in one step, as words over Symbols
          MaxPlan,   \* steps of the server during a call
          Srvs,      \* what the server can do between calls (words)
          CbE, CbD,  \* calls made from the enable and the disable callback
          Tmos,      \* timeouts of dispatch (99: none)
          MaxQ,      \* bytes in flight and events queued (constraint)
          Emit
VARIABLES v, S, lab, ok
vars == <<v, S, lab, ok>>

ECODE == 5
NAME == <<115, 0>>
Good(c) == CASE c = "open_seat" -> Hdr(OPENED, 4) \o P16(2) \o NAME
             [] c = "close_seat" -> Hdr(CLOSED, 0)
             [] c = "open_device" -> Hdr(DEVOPENED, 4) \o P32(7)
             [] c = "close_device" -> Hdr(DEVCLOSED, 0)
             [] c = "switch_session" -> Hdr(SWITCHED, 0)
             [] OTHER -> Hdr(DISABLED, 0)
\* symbols: E enable, D disable, P pong, R the good reply to c, X an error, W a wrong message,
\* h the first half of an enable, t its second half, F the reply to open_device without a descriptor, B an error of the wrong size,
\* Z an event with a body (a pong, as it happens)
Sym(y, c) == CASE y = "E" -> Hdr(ENABLE, 0) [] y = "D" -> Hdr(DISABLE, 0) [] y = "P" -> Hdr(PONG, 0)
               [] y = "R" -> Good(c) [] y = "X" -> Hdr(ERR, 4) \o P32(ECODE) [] y = "W" -> Hdr(77, 0)
               [] y = "h" -> SubSeq(Hdr(ENABLE, 0), 1, 2) [] y = "t" -> SubSeq(Hdr(ENABLE, 0), 3, 4)
               [] y = "F" -> Good("open_device") [] y = "Z" -> Hdr(ENABLE, 4) \o Hdr(PONG, 0) [] y = "r" -> SubSeq(Good(c), 1, 3) [] y = "B" -> Hdr(ERR, 2) \o <<1, 1>> [] OTHER -> <<>>
RECURSIVE Bytes(_, _)
Bytes(wd, c) == IF wd = <<>> THEN <<>> ELSE Sym(Head(wd), c) \o Bytes(Tail(wd), c)
Wd(n) == CASE n = "ER" -> <<"E", "R">> [] n = "DR" -> <<"D", "R">> [] n = "RE" -> <<"R", "E">> [] n = "RD" -> <<"R", "D">> [] n = "PR" -> <<"P", "R">>
           [] n = "RP" -> <<"R", "P">> [] n = "EDR" -> <<"E", "D", "R">> [] n = "ERD" -> <<"E", "R", "D">> [] n = "REP" -> <<"R", "E", "P">> [] n = "RPE" -> <<"R", "P", "E">>
           [] n = "DX" -> <<"D", "X">> [] n = "XE" -> <<"X", "E">> [] n = "ED" -> <<"E", "D">> [] n = "EE" -> <<"E", "E">> [] n = "DE" -> <<"D", "E">> [] n = "PE" -> <<"P", "E">> [] n = "EP" -> <<"E", "P">>
           [] n = "tR" -> <<"t", "R">> [] n = "Rh" -> <<"R", "h">> [] n = "RW" -> <<"R", "W">> [] n = "EW" -> <<"E", "W">> [] n = "EZ" -> <<"E", "Z">> [] n = "ZR" -> <<"Z", "R">> [] n = "RZ" -> <<"R", "Z">> [] n = "EEEE" -> <<"E", "E", "E", "E">>
           [] n = "Rr" -> <<"R", "r">> [] n = "Re" -> <<"R", "E", "D", "E">>
           [] OTHER -> <<n>>
Seg(wd, c) == IF wd = <<"H">> THEN [k |-> "hup", b |-> <<>>, nf |-> 0]
              ELSE [k |-> "b", b |-> Bytes(wd, c), nf |-> IF c = "open_device" /\ \E j \in 1..Len(wd) : wd[j] = "R" THEN 1 ELSE 0]
Ones(n) == [j \in 1..n |-> 1]

----------------------------------------------------------------------------
\* the library
L(x, e) == [x EXCEPT !.log = Append(@, e)]
Err(x) == IF x.err THEN x ELSE [x EXCEPT !.err = TRUE, !.pend = <<>>, !.rfd = <<>>, !.sock = <<>>, !.ffd = <<>>, !.aw = FALSE]
SrvDo(x, g) == IF x.hup \/ x.err THEN x
               ELSE IF g.k = "hup" THEN L([x EXCEPT !.hup = TRUE], [t |-> "hup"])
               ELSE L([x EXCEPT !.sock = @ \o g.b, !.ffd = @ \o Ones(g.nf)], [t |-> "srv", b |-> g.b, ids |-> Ones(g.nf)])
Recv(x) == IF x.sock # <<>>
           THEN LET k == IF Len(x.sock) < 256 - Len(x.rx) THEN Len(x.sock) ELSE 256 - Len(x.rx) IN
                [v |-> L([x EXCEPT !.rx = @ \o SubSeq(x.sock, 1, k), !.sock = Drop(@, k), !.rfd = @ \o x.ffd, !.ffd = <<>>],
                         [t |-> "recv", n |-> k, nf |-> Len(x.ffd)]), r |-> k]
           ELSE LET n == IF x.hup THEN 0 ELSE -11 IN [v |-> L(x, [t |-> "recv", n |-> n, nf |-> 0]), r |-> n]
ReadConn(x) == LET p == Recv(x) IN
               CASE p.r = 0 -> [v |-> Err(p.v), r |-> -1, e |-> 5]
                 [] p.r = -11 -> [v |-> p.v, r |-> -1, e |-> 11]
                 [] OTHER -> [v |-> p.v, r |-> p.r, e |-> 0]
Re(x) == (IF x.sock # <<>> \/ x.hup THEN 1 ELSE 0) + (IF x.hup THEN 16 ELSE 0)
PollConn(x, tmo) ==
  LET wait == Re(x) = 0 /\ tmo # 0
      x1 == IF ~wait THEN x
            ELSE LET y == L(x, [t |-> "poll", tmo |-> tmo, re |-> 0]) IN
                 IF y.plan # <<>> THEN [SrvDo(y, Head(y.plan)) EXCEPT !.plan = Tail(@)]
                 ELSE IF tmo < 0 THEN SrvDo(y, [k |-> "hup"]) ELSE y
      x2 == L(x1, [t |-> "poll", tmo |-> 0, re |-> Re(x1)])
  IN CASE Re(x1) >= 16 -> [v |-> Err(x2), r |-> -1, e |-> 32]
       [] Re(x1) = 1 -> ReadConn(x2)
       [] OTHER -> [v |-> x2, r |-> 0, e |-> 0]

RECURSIVE RQ(_, _, _)
RQ(x, n, want) ==
  IF ~HasHdr(x.rx) THEN [v |-> x, n |-> n, op |-> -1]
  ELSE IF Odd(x.rx) THEN [v |-> Err(x), n |-> -1, op |-> -1]
  ELSE IF IsPong(x.rx) THEN RQ([x EXCEPT !.aw = FALSE, !.rx = Drop(@, 4)], n + 1, want)
  ELSE IF IsEvent(x.rx) THEN RQ([x EXCEPT !.pend = Append(@, EvName(Op(x.rx))), !.rx = Drop(@, 4)], n + 1, want)
  ELSE IF ~want THEN [v |-> Err(x), n |-> -1, op |-> -1]
  ELSE [v |-> x, n |-> n + 1, op |-> IF Whole(x.rx) THEN Op(x.rx) ELSE -1]

RECURSIVE Until(_)
Until(x) == LET r == RQ(x, 0, TRUE) IN
            IF r.op # -1 THEN [v |-> r.v, ok |-> TRUE, e |-> 0]
            ELSE IF r.n = -1 THEN [v |-> r.v, ok |-> FALSE, e |-> 74]
            ELSE LET p == PollConn(r.v, -1) IN IF p.r = -1 THEN [v |-> p.v, ok |-> FALSE, e |-> p.e] ELSE Until(p.v)
Send(x, b) == IF x.hup THEN [v |-> Err(L(x, [t |-> "send", r |-> -32, b |-> b])), ok |-> FALSE, e |-> 32]
              ELSE [v |-> L(x, [t |-> "send", r |-> Len(b), b |-> b]), ok |-> TRUE, e |-> 0]
CheckPending(x) ==
  IF x.err THEN RQ(x, 0, FALSE).v
  ELSE LET r == RQ(x, 0, FALSE) IN
       IF r.n = -1 \/ r.v.pend = <<>> \/ r.v.aw THEN r.v
       ELSE LET p == Send(r.v, PING) IN IF p.ok THEN [p.v EXCEPT !.aw = TRUE] ELSE p.v
\* the reply: [v, e (0: good)]
Reply(x, c) ==
  LET b == x.rx  y == [x EXCEPT !.rx = Drop(@, 4)] IN
  IF Op(b) = ERR /\ Size(b) = 4 THEN [v |-> [x EXCEPT !.rx = Drop(@, 8)], e |-> I32(b, 5), r |-> -1, fd |-> 0]
  ELSE IF Op(b) # Op(Good(c)) \/ Size(b) # Len(Good(c)) - 4 \/ (c = "open_seat" /\ SubSeq(b, 1, Len(Good(c))) # Good(c)) THEN [v |-> Err(y), e |-> 74, r |-> -1, fd |-> 0]
  ELSE IF c = "open_device" THEN
         IF x.rfd = <<>> THEN [v |-> Err([x EXCEPT !.rx = Drop(@, 8)]), e |-> 74, r |-> -1, fd |-> 0]
         ELSE [v |-> [x EXCEPT !.rx = Drop(@, 8), !.rfd = Tail(@)], e |-> 0, r |-> I32(b, 5), fd |-> x.rfd[1]]
  ELSE [v |-> [x EXCEPT !.rx = Drop(@, Len(Good(c))), !.name = IF c = "open_seat" THEN <<115>> ELSE @], e |-> 0, r |-> 0, fd |-> 0]

Closed0 == [open |-> FALSE, err |-> FALSE, hup |-> FALSE, sock |-> <<>>, ffd |-> <<>>, rx |-> <<>>, rfd |-> <<>>, pend |-> <<>>, aw |-> FALSE, name |-> <<>>]
Closed(x) == Closed0 @@ [plan |-> x.plan, log |-> x.log, cbs |-> x.cbs, depth |-> x.depth]
Fresh == Closed(Closed0 @@ [plan |-> <<>>, log |-> <<>>, cbs |-> <<"none", "none">>, depth |-> 0])

ArgV(c) == CASE c = "close_device" -> 7 [] c = "switch_session" -> 2 [] c = "bad_close" -> -1 [] OTHER -> 0
ArgP(c) == IF c = "open_device" THEN <<47, 97>> ELSE <<>>
Real(c) == IF c = "bad_close" THEN "close_device" ELSE c
CallEv(c, val) == [t |-> "call", c |-> Real(c), v |-> val, p |-> ArgP(c)]
RetEv(r, e, fd, name) == [t |-> "ret", v |-> r, err |-> e, fd |-> fd, clo |-> 1, name |-> name]
NotConn == [r |-> -1, e |-> 107, fd |-> 0, rep |-> FALSE]

RECURSIVE Exec(_, _), Call(_, _, _)
\* the listener is called for each event of list
Exec(x, list) ==
  IF list = <<>> THEN x
  ELSE LET e == Head(list)
           y == L(x, [t |-> "cb", e |-> e, ok |-> 1])
           c == y.cbs[IF e = "enable" THEN 1 ELSE 2]
           z == IF c = "none" THEN y ELSE [Call([y EXCEPT !.depth = @ + 1], c, ArgV(c)) EXCEPT !.depth = @ - 1]
       IN Exec(z, Tail(list))
ExecAll(x) == Exec([x EXCEPT !.pend = <<>>], x.pend)

Ask(x, c, val) ==  \* a request: [v, r, e, fd]
  IF x.err THEN [v |-> x] @@ NotConn
  ELSE IF BadArgs(CallEv(c, val)) THEN [v |-> x, r |-> -1, e |-> 22, fd |-> 0, rep |-> FALSE]
  ELSE LET p == Send(x, Request(CallEv(c, val))) IN
       IF ~p.ok THEN [v |-> p.v, r |-> -1, e |-> p.e, fd |-> 0, rep |-> FALSE]
       ELSE LET u == Until(p.v) IN
            IF ~u.ok THEN [v |-> u.v, r |-> -1, e |-> u.e, fd |-> 0, rep |-> FALSE]
            ELSE LET q == Reply(u.v, c) IN [v |-> q.v, r |-> q.r, e |-> q.e, fd |-> q.fd, rep |-> TRUE]

Dispatch(x, tmo) ==
  IF x.err THEN [v |-> x] @@ NotConn
  ELSE LET a == RQ(x, 0, FALSE) IN
       IF a.n = -1 THEN [v |-> a.v, r |-> -1, e |-> 74, fd |-> 0]
       ELSE LET b == ExecAll(a.v)
                n == a.n + Len(a.v.pend)
                p == IF b.err THEN [v |-> b, r |-> -1, e |-> 9]
                     ELSE IF n > 0 \/ tmo = 0 THEN ReadConn(b) ELSE PollConn(b, tmo) IN
            IF p.r = 0 THEN [v |-> p.v, r |-> n, e |-> 0, fd |-> 0]
            ELSE IF p.r = -1 /\ p.e # 11 THEN [v |-> Err(p.v), r |-> -1, e |-> p.e, fd |-> 0]
            ELSE LET d == RQ(p.v, 0, FALSE) IN
                 IF d.n = -1 THEN [v |-> d.v, r |-> -1, e |-> 74, fd |-> 0]
                 ELSE [v |-> ExecAll(d.v), r |-> n + d.n + Len(d.v.pend), e |-> 0, fd |-> 0]

Call(x, c, val) ==
  LET y == L(x, CallEv(c, val)) IN
  CASE c = "open_seat" ->
         LET y1 == L([y EXCEPT !.open = TRUE], [t |-> "connect", r |-> 0])
             a == Ask(y1, c, val)
         IN IF a.e # 0 THEN L(Closed(a.v), RetEv(-1, a.e, 0, <<>>))
            ELSE L(CheckPending(ExecAll(a.v)), RetEv(0, 0, 0, <<>>))
    [] c = "close_seat" -> LET a == Ask(y, c, val) IN L(Closed(ExecAll(a.v)), RetEv(a.r, a.e, 0, <<>>))
    [] c = "dispatch" -> LET a == Dispatch(y, val) IN L(a.v, RetEv(a.r, a.e, 0, <<>>))
    [] c = "seat_name" -> L(y, RetEv(0, 0, 0, y.name))
    [] c = "get_fd" -> L(y, RetEv(IF y.err THEN -1 ELSE 5, IF y.err THEN 107 ELSE 0, 0, <<>>))
    [] OTHER -> LET a == Ask(y, Real(c), val) IN
                L(IF a.rep THEN CheckPending(a.v) ELSE a.v, RetEv(a.r, a.e, a.fd, <<>>))

----------------------------------------------------------------------------
Plans(c) == UNION {[1..n -> Segs] : n \in 0..MaxPlan}
Lab == [op |-> "call", c |-> "", v |-> 0, p |-> <<>>, plan |-> <<>>, b |-> <<>>, hup |-> FALSE, e |-> ""]
Run(x, a) ==
  CASE a.op = "srv" -> SrvDo(x, IF a.hup THEN [k |-> "hup"] ELSE [k |-> "b", b |-> a.b, nf |-> 0])
    [] OTHER -> [Call([x EXCEPT !.plan = a.plan], IF a.c = "close_device" /\ a.v < 0 THEN "bad_close" ELSE a.c, a.v) EXCEPT !.plan = <<>>]

CallActs ==
  UNION {LET c == Real(k) IN
         {[Lab EXCEPT !.c = c, !.v = tv, !.p = ArgP(k), !.plan = [j \in 1..Len(pl) |-> Seg(Wd(pl[j]), IF k = "dispatch" THEN "disable_seat" ELSE c)]] :
            tv \in IF k = "dispatch" THEN {IF tm = 99 THEN -1 ELSE tm : tm \in Tmos} ELSE {ArgV(k)}, pl \in IF k \in {"seat_name", "get_fd", "bad_close"} THEN {<<>>} ELSE Plans(c)} : k \in Calls}
Can(a) == IF a.op = "srv" THEN v.open /\ ~v.err /\ ~v.hup /\ Len(v.sock) + Len(a.b) <= MaxQ
          ELSE IF a.c = "open_seat" THEN ~v.open ELSE v.open
\* a call takes all the steps of the plan, or the rest of the plan does not matter
Acts == CallActs \cup {[Lab EXCEPT !.op = "srv", !.hup = (wd = "H"), !.b = Bytes(Wd(wd), "close_device")] : wd \in Srvs}

Init == /\ v = [Fresh EXCEPT !.cbs = <<CbE, CbD>>]
        /\ S = Idle /\ lab = Lab /\ ok = TRUE
\* the set of actions does not depend on the state
ActSet == TLCEval(Acts)
Canon(x, s) == <<[x EXCEPT !.log = <<>>], [s EXCEPT !.sent = <<>>, !.want = <<>>]>>
FACETS == {"events", "wake", "ret", "sent"}
Next == \E a \in ActSet :
          /\ Can(a)
          /\ LET x == Run([v EXCEPT !.log = <<>>], a)
                 r == Replay(S, x.log, FACETS)
                 unused == a.op = "call" /\ a.plan # <<>> /\ Cardinality({j \in 1..Len(x.log) : x.log[j].t \in {"srv", "hup"} /\ x.log[j] # [t |-> "hang"]}) < Len(a.plan)
             IN /\ ~unused
                /\ v' = x
                /\ S' = [r.s EXCEPT !.sent = <<>>, !.want = <<>>]
                /\ ok' = r.ok
                /\ lab' = a
                /\ IF Emit THEN PrintT(<<"T", TLCFP(Canon([v EXCEPT !.log = <<>>], S)), TLCFP(Canon(x, S')), ToJson(a)>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
View == Canon(v, S)
Small == S.pings <= 2 /\ Len(S.q) <= MaxQ \div 4 /\ Len(v.rfd) <= 1 /\ Len(v.rx) <= 8

\* the algorithm does nothing the specification objects to
I19 == ok
\* and agrees with it on the state of the connection
A19 == [][(~v'.open = (S'.st = "none")) /\ (v'.open => (v'.err = (S'.st = "err")) /\ (v'.err \/ (v'.rx = S'.rx /\ v'.rfd = S'.rfd /\ v'.pend = S'.q)))]_vars
=============================================================================
