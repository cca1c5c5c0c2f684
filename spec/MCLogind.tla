-------------------------------- MODULE MCLogind --------------------------------
(***************************************************************************)
(* The logind backend's algorithm (sd-bus' queue, activity, pings) against *)
(* every small login manager: the log of each call must be one Logind.tla  *)
(* has no objection to.  The edges of the graph are replayed into the real *)
(* library, linked with the real sd-bus.                                   *)
(***************************************************************************)
EXTENDS Logind, TLC, TLCExt, Json
CONSTANTS Calls,     \* what the application does
          Groups,    \* what the manager does when called (names, see Grp)
          MaxPlan,   \* answers during a call that differ from the usual one
          Idles,     \* what the manager does while the library waits (names of words)
          Srvs,      \* what the manager does between calls (words)
          CbE, CbD,  \* calls made from the enable and the disable callback
          Tmos,      \* timeouts of dispatch (99: none)
          Envs,      \* "ok", or what fails before the bus is reached
          Act0,      \* the session's activity at first
          MaxQ,      \* messages in flight (constraint)
          MaxDev,    \* devices open
          Emit
VARIABLES v, S, lab, ok
vars == <<v, S, lab, ok>>

\* words: sequences of signals (and H: hang up, ph/pa: hold pings, answer them)
Wd(n) == CASE n = "A0A1" -> <<"A0", "A1">> [] n = "A1A0" -> <<"A1", "A0">> [] n = "p1A0" -> <<"p1", "A0">> [] n = "I1I0" -> <<"I1", "I0">>
           [] n = "A1I0" -> <<"A1", "I0">> [] n = "p1p2" -> <<"p1", "p2">> [] n = "I0A1" -> <<"I0", "A1">> [] n = "" -> <<>> [] OTHER -> <<n>>
\* answers: what is sent before, the outcome, what is sent after
G(a, o, b) == [pre |-> a, out |-> o, post |-> b]
Grp(n) == CASE n = "R" -> G(<<>>, "R", <<>>) [] n = "E" -> G(<<>>, "E13", <<>>) [] n = "X" -> G(<<>>, "X", <<>>) [] n = "H" -> G(<<>>, "H", <<>>)
            [] n = "A0R" -> G(<<"A0">>, "R", <<>>) [] n = "A1R" -> G(<<"A1">>, "R", <<>>) [] n = "I0R" -> G(<<"I0">>, "R", <<>>) [] n = "I1R" -> G(<<"I1">>, "R", <<>>)
            [] n = "RA0" -> G(<<>>, "R", <<"A0">>) [] n = "RA1" -> G(<<>>, "R", <<"A1">>) [] n = "RI0" -> G(<<>>, "R", <<"I0">>) [] n = "p1R" -> G(<<"p1">>, "R", <<>>)
            [] n = "A0E" -> G(<<"A0">>, "E5", <<>>) [] n = "uRp1" -> G(<<"u">>, "R", <<"p1">>) [] n = "EA1" -> G(<<>>, "E16", <<"A1">>) [] n = "A1A0R" -> G(<<"A1", "A0">>, "R", <<>>)
            [] n = "A0H" -> G(<<"A0">>, "H", <<>>)
Code(o) == CASE o = "E13" -> 13 [] o = "E5" -> 5 [] o = "E16" -> 16 [] OTHER -> 0

SetFx(n) == [k |-> "set", v |-> n]
GetFx == [k |-> "get", v |-> 0]
DoneFx(n) == [k |-> "done", v |-> n]
Fx(w) == CASE w = "A0" -> <<SetFx(0)>> [] w = "A1" -> <<SetFx(1)>> [] w \in {"I0", "I1"} -> <<GetFx>> [] w = "p1" -> <<SetFx(0), DoneFx(1)>> [] w = "p2" -> <<SetFx(0), DoneFx(2)>>
           [] w = "A1uI0" -> <<SetFx(1), GetFx>> [] OTHER -> <<>>
ActOf(w, a) == CASE w \in {"A0", "I0", "A1uI0"} -> 0 [] w \in {"A1", "I1"} -> 1 [] OTHER -> a
Private(w) == w \in {"oA0", "qA1"}   \* of another interface or object
\* matched by which rule?
Fwd(x, w) == CASE w \in {"p1", "p2", "f1", "g1"} -> x.m1 [] w = "qA1" -> FALSE [] w \in {"r", "n"} -> TRUE [] OTHER -> x.m2

----------------------------------------------------------------------------
L(x, e) == [x EXCEPT !.log = Append(@, e)]
SigEv(x, w, f) == [t |-> "sig", fwd |-> IF f THEN 1 ELSE 0, s |-> w, act |-> ActOf(w, x.act), fx |-> Fx(w)]
Hup(x) == IF x.hup THEN x ELSE L([x EXCEPT !.hup = TRUE, !.held = 0], [t |-> "hup"])
RECURSIVE Pongs(_)
Pongs(x) == IF x.held = 0 THEN x ELSE Pongs(L([x EXCEPT !.held = @ - 1, !.sock = Append(@, "pong")], [t |-> "pong"]))
SrvOne(x, w) ==
  IF x.hup \/ ~x.conn \/ (~x.hello /\ w # "H") THEN x
  ELSE CASE w = "H" -> Hup(x)
         [] w = "ph" -> [x EXCEPT !.hold = TRUE]
         [] w = "pa" -> Pongs([x EXCEPT !.hold = FALSE])
         [] OTHER -> LET f == Fwd(x, w)
                         y == L(x, SigEv(x, w, f))
                         z == [y EXCEPT !.act = IF Private(w) THEN @ ELSE ActOf(w, @)] IN
                     IF f THEN [z EXCEPT !.sock = Append(@, w)] ELSE z
RECURSIVE SrvDo(_, _)
SrvDo(x, ws) == IF ws = <<>> THEN x ELSE SrvDo(SrvOne(x, Head(ws)), Tail(ws))
BusEv(m, p, str, a, r, val) == [t |-> "bus", m |-> m, p |-> p, s |-> str, a |-> a, r |-> r, v |-> val]
\* the manager reads the pings sent so far
RECURSIVE Pump(_)
Pump(x) == IF x.pings = 0 THEN x
           ELSE IF x.hup THEN [x EXCEPT !.pings = 0]
           ELSE Pump(IF x.hold THEN L([x EXCEPT !.pings = @ - 1, !.held = @ + 1], BusEv("Ping", "", "", <<>>, -3, 0))
                     ELSE L([x EXCEPT !.pings = @ - 1, !.sock = Append(@, "pong")], BusEv("Ping", "", "", <<>>, 0, 0)))
Dead(x) == [x EXCEPT !.dead = TRUE, !.rq = <<>>, !.sock = <<>>]

\* a method call that waits for its reply: [v, r (0, the error, or -2), val]
Bus(x, m, p, str, a) ==
  IF x.hup \/ x.dead THEN [v |-> Dead(x), r |-> 104, val |-> 0]
  ELSE LET y == Pump(x)
           g == IF y.plan # <<>> THEN Head(y.plan) ELSE Grp("R")
           y1 == SrvDo([y EXCEPT !.plan = IF @ # <<>> THEN Tail(@) ELSE @], g.pre)
           wrong == g.out = "X" /\ m \in {"TakeDevice", "GetSession", "GetSeat", "Get"}
       IN IF g.out = "H" THEN [v |-> Dead(Hup(y1)), r |-> 104, val |-> 0]
          ELSE LET r == IF Code(g.out) # 0 THEN Code(g.out) ELSE IF wrong THEN -2 ELSE 0
                   y2 == L(y1, BusEv(m, p, str, a, r, y1.act))
                   y3 == CASE m = "Hello" /\ r = 0 -> SrvOne([y2 EXCEPT !.hello = TRUE], "n")
                           [] m = "AddMatch" /\ r = 0 -> IF str = "pause" THEN [y2 EXCEPT !.m1 = TRUE] ELSE [y2 EXCEPT !.m2 = TRUE]
                           [] OTHER -> y2
                   \* what was sent before the reply is read with it
                   y4 == IF m = "Hello" THEN y3 ELSE [y3 EXCEPT !.rq = @ \o y3.sock, !.sock = <<>>]
               IN [v |-> SrvDo(y4, g.post), r |-> r, val |-> y1.act]

Check(x) == IF x.rq # <<>> THEN [x EXCEPT !.pings = @ + 1] ELSE x

Closed0 == [open |-> FALSE, conn |-> FALSE, hello |-> FALSE, hup |-> FALSE, dead |-> FALSE, m1 |-> FALSE, m2 |-> FALSE, active |-> 0, init |-> FALSE,
            sock |-> <<>>, rq |-> <<>>, pings |-> 0, held |-> 0, hold |-> FALSE]
Closed(x) == Closed0 @@ [plan |-> x.plan, idle |-> x.idle, log |-> x.log, cbs |-> x.cbs, act |-> x.act, devs |-> x.devs]
Fresh == Closed0 @@ [plan |-> <<>>, idle |-> <<>>, log |-> <<>>, cbs |-> <<"none", "none">>, act |-> Act0, devs |-> <<>>]

DevN(c) == IF c = "open_zero" THEN <<1, 5>> ELSE <<1, 3>>
RealC(c) == CASE c \in {"open_null", "open_zero", "open_none"} -> "open_device" [] c \in {"close_device", "close_bad", "close_neg"} -> "close_device"
             [] c \in {"switch_session", "switch_neg"} -> "switch_session" [] OTHER -> c
EnvOf(n) == CASE n = "pid" -> [xdg |-> 0, xr |-> 0, pr |-> 0, dr |-> 0, sr |-> 0, conn |-> 0, ty |-> 0]
             [] n = "disp" -> [xdg |-> 0, xr |-> 0, pr |-> -61, dr |-> 0, sr |-> 0, conn |-> 0, ty |-> 0]
             [] n = "nodisp" -> [xdg |-> 0, xr |-> 0, pr |-> -61, dr |-> -2, sr |-> 0, conn |-> 0, ty |-> 0]
             [] n = "noxdg" -> [xdg |-> 1, xr |-> -6, pr |-> 0, dr |-> 0, sr |-> 0, conn |-> 0, ty |-> 0]
             [] n = "noseat" -> [xdg |-> 1, xr |-> 0, pr |-> 0, dr |-> 0, sr |-> -61, conn |-> 0, ty |-> 0]
             [] n = "noconn" -> [xdg |-> 1, xr |-> 1, pr |-> 0, dr |-> 0, sr |-> 0, conn |-> 111, ty |-> 0]
             [] n = "typed" -> [xdg |-> 1, xr |-> 1, pr |-> 0, dr |-> 0, sr |-> 0, conn |-> 0, ty |-> 1]
             [] OTHER -> [xdg |-> 1, xr |-> 1, pr |-> 0, dr |-> 0, sr |-> 0, conn |-> 0, ty |-> 0]

CallEv(x, c, val, env) ==
  LET b == [t |-> "call", c |-> RealC(c),
            v |-> CASE c = "close_neg" -> -1 [] c = "close_bad" -> 99 [] c = "close_device" -> 50 [] c = "switch_neg" -> -1 [] c = "switch_session" -> 2 [] OTHER -> val,
            d |-> CASE c \in {"open_null", "open_zero"} -> DevN(c) [] c = "close_device" -> Head(x.devs) [] OTHER -> <<>>]
  IN IF c = "open_seat" THEN b @@ [env |-> EnvOf(env)] ELSE b
RetEv(r, e, d) == [t |-> "ret", v |-> r, err |-> IF r = -1 THEN e ELSE 0, d |-> d, clo |-> 1, name |-> "seatZ"]

RECURSIVE Call(_, _, _, _), SetActive(_, _), Handle(_, _), Process(_, _)
Cb(x, val) ==
  LET y == L(x, [t |-> "cb", v |-> val, ok |-> 1])
      c == y.cbs[IF val = 1 THEN 1 ELSE 2]
  IN IF c = "none" \/ (c = "close_device" /\ y.devs = <<>>) \/ (c \in {"open_null", "open_zero"} /\ Len(y.devs) >= MaxDev) THEN y ELSE Call(y, c, 0, "ok")
SetActive(x, val) == IF x.active = val THEN x ELSE Cb([x EXCEPT !.active = val], val)
\* a message is handled
Handle(x, w) ==
  CASE w = "A0" -> SetActive(x, 0) [] w = "A1" -> SetActive(x, 1)
    [] w \in {"I0", "I1"} -> LET b == Bus(x, "Get", "sess", "Active", <<>>) IN IF b.r = 0 THEN SetActive(b.v, b.val) ELSE b.v
    [] w = "A1uI0" -> LET y == SetActive(x, 1)  b == Bus(y, "Get", "sess", "Active", <<>>) IN IF b.r = 0 THEN SetActive(b.v, b.val) ELSE b.v
    [] w \in {"p1", "p2"} -> Bus(SetActive(x, 0), "PauseDeviceComplete", "sess", "", <<13, IF w = "p1" THEN 65 ELSE 66>>).v
    [] OTHER -> x
\* everything that can be read: [v, n (-1: the bus is gone)]
Process(x, n) ==
  IF x.dead THEN [v |-> x, n |-> -1]
  ELSE IF x.rq # <<>> THEN Process(Handle([x EXCEPT !.rq = Tail(@)], Head(x.rq)), n + 1)
  ELSE IF x.sock # <<>> THEN Process(Handle([x EXCEPT !.sock = Tail(@)], Head(x.sock)), n + 1)
  ELSE IF x.hup THEN [v |-> Dead(x), n |-> -1]
  ELSE [v |-> x, n |-> n]
Dispatch(x, tmo) ==
  LET a == IF x.init THEN Cb([x EXCEPT !.init = FALSE], x.active) ELSE x
      p == Process(a, IF x.init THEN 1 ELSE 0)
  IN IF p.n # 0 \/ tmo = 0 THEN (IF p.n >= 0 THEN [p EXCEPT !.v = Check(@)] ELSE p)
     ELSE LET y == Pump(p.v) IN
          IF y.sock # <<>> THEN LET q == Process(y, 0) IN IF q.n >= 0 THEN [q EXCEPT !.v = Check(@)] ELSE q
          ELSE LET z == L(y, [t |-> "idle", tmo |-> tmo])
                   z1 == IF z.idle # <<>> THEN SrvDo([z EXCEPT !.idle = Tail(@)], Head(z.idle)) ELSE IF tmo < 0 THEN Hup(z) ELSE z
                   \* nothing came of it: wait again, until there are no more ideas
                   z2 == IF z1.sock = <<>> /\ ~z1.hup /\ z.idle # <<>>
                         THEN LET u == L(z1, [t |-> "idle", tmo |-> tmo]) IN IF tmo < 0 THEN Hup(u) ELSE u ELSE z1
               IN IF z2.hup THEN [v |-> z2, n |-> -1]
                  ELSE LET q == Process(z2, 0) IN IF q.n >= 0 THEN [q EXCEPT !.v = Check(@)] ELSE q

Step1(x, m, p, str, a) == IF x.e # 0 THEN x ELSE LET b == Bus(x.v, m, p, str, a) IN [v |-> b.v, e |-> b.r, val |-> IF m = "Get" THEN b.val ELSE x.val]
Open(x, env) ==
  LET l == Lookup(EnvOf(env))  id == Session(EnvOf(env)) IN
  IF l # 0 THEN [v |-> x, e |-> l, val |-> 0]
  ELSE IF EnvOf(env).conn # 0 THEN [v |-> x, e |-> 111, val |-> 0]
  ELSE LET a0 == Step1([v |-> [x EXCEPT !.conn = TRUE], e |-> 0, val |-> 0], "Hello", "bus", "", <<>>)
           a1 == Step1(a0, "GetSession", "mgr", id, <<>>)
           a2 == Step1(a1, "GetSeat", "mgr", "seatZ", <<>>)
           a3 == Step1(Step1(a2, "AddMatch", "bus", "pause", <<>>), "AddMatch", "bus", "props", <<>>)
           a4 == Step1(a3, "Get", "sess", "Active", <<>>)
           a5 == Step1(a4, "TakeControl", "sess", "", <<0>>)
       IN IF a5.e # 0 \/ EnvOf(env).ty = 0 THEN a5 ELSE [a5 EXCEPT !.v = Bus(@, "SetType", "sess", "wayland", <<>>).v]

Call(x, c, val, env) ==
  LET y == L(x, CallEv(x, c, val, env))  rc == RealC(c) IN
  CASE c = "open_seat" ->
         LET o == Open(y, env) IN
         IF o.e # 0 THEN LET z == Closed(o.v) IN L(z, RetEv(-1, IF o.e = -2 THEN 6 ELSE o.e, <<>>))
         ELSE L(Check([o.v EXCEPT !.open = TRUE, !.init = TRUE, !.active = o.val]), RetEv(0, 0, <<>>))
    [] c = "close_seat" -> LET b == Bus(y, "ReleaseControl", "sess", "", <<>>) IN L(Closed(b.v), RetEv(0, 0, <<>>))
    [] c = "dispatch" -> LET d == Dispatch(y, val) IN L(d.v, RetEv(d.n, 104, <<>>))
    [] c = "get_fd" -> L(y, RetEv(IF y.dead THEN -1 ELSE 5, 107, <<>>))
    [] c \in {"seat_name", "disable_seat"} -> L(y, RetEv(0, 0, <<>>))
    [] c \in {"open_none", "close_bad", "close_neg", "switch_neg"} -> L(y, RetEv(-1, 22, <<>>))
    [] OTHER -> LET b == Bus(y, Request[rc], IF rc = "switch_session" THEN "seat" ELSE "sess", "", IF rc = "switch_session" THEN <<2>> ELSE CallEv(x, c, val, env).d)
                    z == Check(b.v)
                    z1 == IF b.r # 0 THEN z ELSE CASE rc = "open_device" -> [z EXCEPT !.devs = Append(@, DevN(c))]
                                                   [] rc = "close_device" -> [z EXCEPT !.devs = IF Len(@) = 1 THEN <<>> ELSE <<@[Len(@)]>> \o SubSeq(@, 2, Len(@) - 1)]
                                                   [] OTHER -> z
                IN L(z1, IF b.r # 0 THEN RetEv(-1, IF b.r = -2 THEN 6 ELSE b.r, <<>>)
                         ELSE IF rc = "open_device" THEN RetEv(6, 0, DevN(c)) ELSE RetEv(0, 0, <<>>))
\* after an outermost call the manager reads what was sent
After(x) == LET y == Pump(x) IN L(y, [t |-> "rd", v |-> IF y.open /\ (y.sock # <<>> \/ y.hup) THEN 1 ELSE 0])

----------------------------------------------------------------------------
Lab == [op |-> "call", c |-> "", v |-> 0, plan |-> <<>>, idle |-> <<>>, ws |-> <<>>, env |-> "ok"]
Takes(c) == c \notin {"get_fd", "seat_name", "disable_seat", "open_none", "close_bad", "close_neg", "switch_neg"}
\* opening: one call of the seven answered unusually
OpenPlans == UNION {{[j \in 1..k |-> IF j = k THEN Grp(g) ELSE Grp("R")] : g \in Groups \ {"R"}} : k \in 1..8} \cup {<<>>}
Plans(c) == IF c = "open_seat" THEN OpenPlans
            ELSE IF ~Takes(c) THEN {<<>>}
            ELSE UNION {{[j \in 1..n |-> Grp(q[j])] : q \in [1..n -> Groups]} : n \in 0..MaxPlan}
CallActs == UNION {{[Lab EXCEPT !.c = c, !.v = tv, !.plan = pl, !.idle = id, !.env = en] :
                      tv \in IF c = "dispatch" THEN {IF tm = 99 THEN -1 ELSE tm : tm \in Tmos} ELSE {0}, pl \in Plans(c),
                      id \in IF c = "dispatch" THEN {<<>>} \cup {<<Wd(w)>> : w \in Idles} ELSE {<<>>},
                      en \in IF c = "open_seat" THEN Envs ELSE {"ok"}} : c \in Calls}
Acts == CallActs \cup {[Lab EXCEPT !.op = "srv", !.ws = Wd(w)] : w \in Srvs}
ActSet == TLCEval(Acts)
Can(a) == IF a.op = "srv" THEN v.open /\ ~v.hup /\ Len(v.sock) + Len(v.rq) + Len(a.ws) <= MaxQ
          ELSE IF a.c = "open_seat" THEN ~v.open
          ELSE v.open /\ (a.c = "close_device" => v.devs # <<>>) /\ (a.c \in {"open_null", "open_zero"} => Len(v.devs) < MaxDev)
Run(x, a) == IF a.op = "srv" THEN Pump(SrvDo(x, a.ws)) ELSE After(Call([x EXCEPT !.plan = a.plan, !.idle = a.idle], a.c, a.v, a.env))

Init == /\ v = [Fresh EXCEPT !.cbs = <<CbE, CbD>>]
        /\ S = Idle /\ lab = Lab /\ ok = TRUE
Canon(x, s) == <<[x EXCEPT !.log = <<>>, !.plan = <<>>, !.idle = <<>>], s>>
FACETS == {"events", "wake", "ret", "sent"}
Next == \E a \in ActSet :
          /\ Can(a)
          /\ LET x == Run([v EXCEPT !.log = <<>>], a)
                 r == Replay(S, x.log, FACETS)
             IN /\ x.plan = <<>> /\ x.idle = <<>>     \* the manager did all it was to do
                /\ v' = [x EXCEPT !.plan = <<>>, !.idle = <<>>]
                /\ S' = r.s
                /\ ok' = r.ok
                /\ lab' = a
                /\ IF Emit THEN PrintT(<<"T", TLCFP(Canon([v EXCEPT !.log = <<>>], S)), TLCFP(Canon(x, S')), ToJson(a)>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
View == Canon(v, S)
Small == Len(v.sock) + Len(v.rq) <= MaxQ /\ v.held <= 2

I25 == ok
\* where the algorithm and the specification are, they agree
A25 == [][(v'.open = (S'.st = "ok")) /\ (v'.open /\ ~v'.hup => (v'.init = S'.init) /\ (v'.active = S'.A) /\ (v'.held = S'.held))]_vars
=============================================================================
