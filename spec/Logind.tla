--------------------------------- MODULE Logind ---------------------------------
(***************************************************************************)
(* The logind backend (libseat/backend/logind.c) between an application    *)
(* and a login manager reached over a bus.  A run is a log of events:      *)
(*   call, ret    the application's calls, possibly from callbacks         *)
(*   cb           a listener callback (v: 1 enable, 0 disable)             *)
(*   bus          a method call of the library (m, path p, arguments s, a) *)
(*                and its outcome r: 0 done (a property: v), >0 the error, *)
(*                -2 an unreadable reply, -3 not answered yet (Ping)       *)
(*   sig, pong    the manager sends a signal (fwd: the library gets it) or *)
(*                answers a ping late                                      *)
(*   hup          the bus hangs up                                         *)
(*   idle         the library waits while there is nothing to read         *)
(*   rd           after a call: whether there is something to read (v)     *)
(* Signals come down to effects:                                           *)
(*   set v   the session's activity is v                                   *)
(*   get     the session's activity has to be asked for                    *)
(*   done n  the pause of device n has to be completed                     *)
(* Bad says which aspects of the backend's behaviour an event violates:    *)
(*   "events"  initial event, then one event per change, in order          *)
(*   "wake"    undelivered events wake the application                     *)
(*   "ret"     truthful results, no waiting for what is already there      *)
(*   "sent"    requests to the manager are as they are meant               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Idle == [st |-> "none", hup |-> FALSE, A |-> 0, init |-> FALSE, read |-> FALSE, lost |-> FALSE, m1 |-> FALSE, m2 |-> FALSE, gs |-> FALSE, gt |-> FALSE,
         ctl |-> FALSE, todo |-> <<>>, msgs |-> FALSE, held |-> 0, stack |-> <<>>, off |-> FALSE]
Top(s) == s.stack[Len(s.stack)]
SetTop(s, f) == [s EXCEPT !.stack[Len(s.stack)] = f]
InCall(s) == s.stack # <<>>
Pop(s) == [s EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]

\* changes to what the application already knows need no event
RECURSIVE Norm(_)
Norm(s) == IF s.todo # <<>> /\ Head(s.todo).k = "set" /\ Head(s.todo).v = s.A THEN Norm([s EXCEPT !.todo = Tail(@)]) ELSE s
NextIs(s, k) == LET t == Norm(s) IN t.todo # <<>> /\ Head(t.todo).k = k

\* the session: the one named by XDG_SESSION_ID, the process' own, the user's graphical one
Session(env) == IF env.xdg = 1 THEN IF env.xr >= 0 THEN "x1" ELSE ""
                ELSE IF env.pr = 0 THEN "p2" ELSE IF env.dr >= 0 THEN "d3" ELSE ""
\* errno of a failed lookup, 0 if there is a session on a seat
Lookup(env) == IF Session(env) = "" THEN IF env.xdg = 1 THEN -env.xr ELSE -env.dr
               ELSE IF env.sr < 0 THEN -env.sr ELSE 0

Frame(s, e) == [c |-> e.c, v |-> e.v, d |-> e.d, env |-> IF e.c = "open_seat" THEN e.env ELSE [xdg |-> 0, xr |-> 0, pr |-> 0, dr |-> 0, sr |-> 0, conn |-> 0, ty |-> 0],
                typ |-> FALSE, req |-> -9, fail |-> 0, n |-> 0, waited |-> FALSE, hup |-> s.hup]
Request == [open_device |-> "TakeDevice", close_device |-> "ReleaseDevice", switch_session |-> "SwitchTo"]
Requests == DOMAIN Request
\* calls that never reach the manager
BadArgs(f) == IF f.c = "switch_session" THEN f.v < 0 ELSE f.d = <<>> \/ (f.c = "close_device" /\ f.v < 0)
ReqArgs(f) == IF f.c = "switch_session" THEN <<f.v>> ELSE f.d

Needed == {"Hello", "GetSession", "GetSeat", "AddMatch", "Get", "TakeControl"}
BusStep(s, e) ==
  LET f == Top(s)
      g == IF f.c = "open_seat" /\ e.m \in Needed /\ e.r # 0 /\ f.fail = 0 THEN SetTop(s, [f EXCEPT !.fail = IF e.m = "Hello" THEN -2 ELSE e.r]) ELSE s
  IN
  IF e.m = "Ping" THEN IF e.r = -3 THEN [s EXCEPT !.held = @ + 1] ELSE [s EXCEPT !.msgs = TRUE]
  ELSE IF ~InCall(s) THEN s
  ELSE CASE e.m = "AddMatch" /\ e.r = 0 -> [s EXCEPT !.m1 = @ \/ e.s = "pause", !.m2 = @ \/ e.s = "props"]
    [] e.m = "GetSession" /\ e.r = 0 -> [s EXCEPT !.gs = TRUE]
    [] e.m = "GetSeat" /\ e.r = 0 -> [s EXCEPT !.gt = TRUE]
    [] e.m = "TakeControl" /\ e.r = 0 -> [s EXCEPT !.ctl = TRUE]
    [] e.m = "ReleaseControl" -> [s EXCEPT !.ctl = FALSE]
    [] e.m = "SetType" -> SetTop(s, [f EXCEPT !.typ = TRUE])
    [] e.m = "Get" /\ f.c = "open_seat" /\ e.r = 0 -> [s EXCEPT !.A = e.v, !.read = TRUE, !.lost = FALSE]
    [] e.m = "Get" /\ f.c # "open_seat" /\ NextIs(s, "get") ->
         LET t == Norm(s) IN [t EXCEPT !.todo = IF e.r = 0 THEN <<[k |-> "set", v |-> e.v]>> \o Tail(@) ELSE Tail(@)]
    [] e.m = "PauseDeviceComplete" /\ NextIs(s, "done") -> [Norm(s) EXCEPT !.todo = Tail(@)]
    [] f.c \in Requests /\ e.m = Request[f.c] -> SetTop(s, [f EXCEPT !.req = e.r])
    [] OTHER -> g

Opened(s) == s.gs /\ s.gt /\ s.m1 /\ s.m2 /\ s.read /\ s.ctl
Step(s, e) ==
  CASE e.t = "call" -> LET t == [s EXCEPT !.stack = Append(@, Frame(s, e))] IN IF e.c = "open_seat" THEN [t EXCEPT !.st = "opening"] ELSE t
    [] e.t = "bus" -> BusStep(s, e)
    [] e.t = "sig" -> IF s.st = "none" THEN s
                      ELSE IF e.fwd = 1 THEN [s EXCEPT !.todo = @ \o e.fx, !.msgs = TRUE]
                      ELSE [s EXCEPT !.lost = @ \/ (s.read /\ e.fx # <<>>)]
    [] e.t = "pong" -> [s EXCEPT !.held = @ - 1, !.msgs = TRUE]
    [] e.t = "hup" -> [s EXCEPT !.hup = TRUE, !.held = 0]
    [] e.t = "idle" -> SetTop(s, [Top(s) EXCEPT !.waited = TRUE])
    [] e.t = "cb" -> LET t == SetTop(s, [Top(s) EXCEPT !.n = @ + 1]) IN
                     IF s.init THEN [t EXCEPT !.init = FALSE] ELSE [Norm(t) EXCEPT !.A = e.v, !.todo = Tail(@)]
    [] e.t = "ret" ->
         LET f == Top(s) IN
         CASE f.c = "open_seat" -> IF e.v = 0 THEN [Pop(s) EXCEPT !.st = "ok", !.init = TRUE] ELSE Idle
           [] f.c = "close_seat" -> Idle
           [] f.c = "dispatch" -> [Norm(Pop(s)) EXCEPT !.msgs = FALSE, !.todo = IF s.hup THEN <<>> ELSE @, !.hup = @ \/ e.v = -1]
           [] OTHER -> Norm(Pop(s))
    [] OTHER -> s

Failed(e, code) == e.v = -1 /\ (IF code > 0 THEN e.err = code ELSE e.err # 0)
BadRet(s, e) ==
  LET f == Top(s)  t == Norm(s) IN
  CASE f.c = "open_seat" ->
          LET l == Lookup(f.env) IN
          (IF l # 0 THEN IF Failed(e, l) THEN {} ELSE {"ret"}
           ELSE IF f.fail # 0 \/ f.env.conn # 0 THEN IF Failed(e, f.fail) THEN {} ELSE {"ret"}
           ELSE IF s.hup THEN IF e.v = 0 \/ Failed(e, 0) THEN {} ELSE {"ret"}
           ELSE IF e.v = 0 THEN {} ELSE {"ret"})
          \cup (IF e.v = 0 /\ ~(s.gs /\ s.gt /\ s.ctl /\ (f.env.ty = 0 \/ f.typ \/ s.hup)) THEN {"sent"} ELSE {})
          \cup (IF e.v = 0 /\ (~s.m1 \/ ~s.m2 \/ ~s.read \/ s.lost) THEN {"events"} ELSE {})
     [] f.c = "dispatch" ->
          (IF \/ e.v = -1 /\ ~(e.err # 0 /\ s.hup)
              \/ e.v < -1
              \/ e.v = 0 /\ f.hup
              \/ e.v = 0 /\ f.v # 0 /\ ~f.waited
              \/ e.v > 0 /\ ~(s.msgs \/ f.n > 0 \/ s.hup)
           THEN {"ret"} ELSE {})
          \cup (IF \/ e.v = 0 /\ f.n > 0
                   \/ e.v >= 0 /\ s.init
                   \/ e.v >= 0 /\ ~s.hup /\ t.todo # <<>>
                THEN {"events"} ELSE {})
     [] f.c \in Requests ->
          (IF BadArgs(f) THEN IF Failed(e, 0) THEN {} ELSE {"ret"}
           ELSE IF f.req = -9 THEN IF Failed(e, 0) /\ s.hup THEN {} ELSE {"ret"}
           ELSE IF f.req = 0 THEN IF IF f.c = "open_device" THEN e.v >= 0 /\ e.d = f.d /\ e.clo = 1 ELSE e.v = 0 THEN {} ELSE {"ret"}
           ELSE IF Failed(e, f.req) THEN {} ELSE {"ret"})
     [] f.c = "close_seat" -> IF e.v = 0 \/ s.hup THEN {} ELSE {"ret"}
     [] f.c = "disable_seat" -> IF e.v = 0 \/ (s.hup /\ Failed(e, 0)) THEN {} ELSE {"ret"}
     [] f.c = "get_fd" -> IF e.v >= 0 \/ (s.hup /\ Failed(e, 0)) THEN {} ELSE {"ret"}
     [] f.c = "seat_name" -> IF e.name = "seatZ" THEN {} ELSE {"ret"}
     [] OTHER -> {}

BadBus(s, e) ==
  IF e.m = "Ping" THEN {}
  ELSE IF ~InCall(s) THEN {"sent"}
  ELSE LET f == Top(s) IN
  CASE e.m = "GetSession" -> IF e.p = "mgr" /\ e.s = Session(f.env) THEN {} ELSE {"sent"}
    [] e.m = "GetSeat" -> IF e.p = "mgr" /\ e.s = "seatZ" THEN {} ELSE {"sent"}
    [] e.m = "Get" -> IF e.p = "sess" /\ e.s = "Active" THEN {} ELSE {"sent"}
    [] e.m = "TakeControl" -> IF f.c = "open_seat" /\ e.p = "sess" /\ e.a = <<0>> THEN {} ELSE {"sent"}
    \* XDG_SESSION_TYPE is announced by the controller
    [] e.m = "SetType" -> IF f.c = "open_seat" /\ e.p = "sess" /\ e.s = "wayland" /\ f.env.ty = 1 /\ s.ctl THEN {} ELSE {"sent"}
    [] e.m = "ReleaseControl" -> IF f.c \in {"close_seat", "open_seat"} /\ e.p = "sess" /\ s.ctl THEN {} ELSE {"sent"}
    [] e.m = "PauseDeviceComplete" -> IF e.p = "sess" /\ NextIs(s, "done") /\ ~s.init /\ e.a = <<13, 64 + Head(Norm(s).todo).v>> THEN {} ELSE {"sent", "events"}
    [] e.m \in {Request[c] : c \in Requests} ->
         IF f.c \in Requests /\ e.m = Request[f.c] /\ ~BadArgs(f) /\ f.req = -9 /\ e.a = ReqArgs(f) /\ e.p = (IF f.c = "switch_session" THEN "seat" ELSE "sess")
         THEN {} ELSE {"sent"}
    [] OTHER -> {}

Bad(s, e) ==
  CASE e.t = "cb" ->
         IF /\ InCall(s) /\ Top(s).c = "dispatch" /\ s.st = "ok" /\ e.ok = 1
            /\ IF s.init THEN e.v = s.A ELSE NextIs(s, "set") /\ Head(Norm(s).todo).v = e.v
         THEN {} ELSE {"events"}
    [] e.t = "idle" ->
         IF /\ InCall(s) /\ Top(s).c = "dispatch"
            /\ e.tmo = Top(s).v /\ ~s.hup /\ ~s.init /\ Norm(s).todo = <<>> /\ Top(s).n = 0
         THEN {} ELSE {"ret"}
    [] e.t = "rd" -> IF s.st = "ok" /\ ~s.hup /\ (s.init \/ s.todo # <<>>) /\ e.v = 0 /\ s.held = 0 THEN {"wake"} ELSE {}
    [] e.t = "hang" -> {"ret"}
    [] e.t = "bus" -> BadBus(s, e)
    [] e.t = "ret" -> BadRet(s, e) \cup (IF Top(s).c = "close_seat" /\ s.ctl /\ ~s.hup THEN {"sent"} ELSE {})
    [] OTHER -> {}

RECURSIVE Replay(_, _, _)
Replay(s, log, F) ==
  IF log = <<>> \/ s.off THEN [ok |-> TRUE, s |-> s]
  ELSE LET b == Bad(s, Head(log)) IN
       IF b \cap F # {} THEN [ok |-> FALSE, s |-> s]
       ELSE IF b # {} THEN [ok |-> TRUE, s |-> [s EXCEPT !.off = TRUE]]
       ELSE Replay(Step(s, Head(log)), Tail(log), F)

\* descriptors of the library's own between calls: the bus, and what came with messages not dispatched yet
HeldOk(s, n) == IF s.st = "none" THEN n = 0 ELSE IF s.hup THEN s.msgs \/ n \in 0..1 ELSE IF s.msgs THEN n >= 1 ELSE n = 1
=============================================================================
