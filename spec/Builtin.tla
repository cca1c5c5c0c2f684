--------------------------------- MODULE Builtin ---------------------------------
(***************************************************************************)
(* An application on the built-in backend: the library forks a seatd       *)
(* server that serves this one client (k: its state and that of the        *)
(* machine, see Seatd) and ends with it.                                   *)
(*   ap    none: no seat; open: it has one; dead: the application is gone  *)
(*   evq   events sent to the application and not delivered yet            *)
(*   end   how the server ended: "", "exit0", "sig9"                       *)
(*   wild  a server was killed, so access it gave may be left over         *)
(*   post  dispatched since the server ended?                              *)
(*   ret   the result of the last call, cbs and acks what its callbacks    *)
(*         were and what they got                                          *)
(***************************************************************************)
EXTENDS Seatd

Ret(v, err, o) == [v |-> v, err |-> err, o |-> o]
Start0(vtb, fg, imm, ack) ==
  [k |-> [Init0(vtb, fg, imm) EXCEPT !.run = FALSE], ap |-> "none", evq |-> <<>>, last |-> "disable", end |-> "none",
   ack |-> ack, wild |-> FALSE, post |-> 0, ret |-> Ret(0, 0, 0), cbs |-> <<>>, acks |-> <<>>]

\* the next embedded server starts with the machine as it is
Boot(s) == [Init0(s.vtb, s.fg, s.imm) EXCEPT !.vt = s.vt, !.ofd = s.ofd, !.mast = s.mast, !.ext = s.ext, !.cl = <<NewClient>>]

\* it ends when its client is gone, and what the kernel had for it is dropped
Ended(t) == [Shutdown(t) EXCEPT !.rel = FALSE, !.acq = FALSE, !.rrel = FALSE, !.racq = FALSE]
BStep(s, as) == {IF t.run /\ t.cl[1].ph # "gone" THEN t ELSE Ended(t) : t \in StepSet(s, as)}
Snd(b) == [a |-> "send", c |-> 1, b |-> b, nf |-> 0]
Hup == [a |-> "close", c |-> 1]

Events(t) == EvKinds(t.cl[1])
After(x, t) == [x EXCEPT !.k = ClearOut(t), !.evq = @ \o Events(t), !.end = IF t.run THEN "" ELSE "exit0"]

\* the outcome of a request b
Outcome(t) == LET r == Resps(t.cl[1]) IN
  IF r = <<>> THEN Ret(-1, -1, 0)      \* the connection ended
  ELSE CASE r[1].k = "error" -> Ret(-1, r[1].e, 0)
         [] r[1].k = "dev" -> Ret(r[1].id, 0, r[1].o)
         [] OTHER -> Ret(0, 0, 0)
Do(x, b) == IF ~x.k.run THEN {[x EXCEPT !.ret = Ret(-1, -1, 0)]}
            ELSE {[After(x, t) EXCEPT !.ret = Outcome(t)] : t \in BStep(x.k, <<Snd(b)>>)}

\* callbacks: at least the n events that are there; the application may answer a disable from its callback
RECURSIVE Disp(_, _)
Disp(x, n) ==
  IF x.evq = <<>> THEN {x}
  ELSE (IF n <= 0 \/ ~x.k.run THEN {x} ELSE {}) \cup
       LET e == Head(x.evq)
           y == [x EXCEPT !.evq = Tail(@), !.cbs = Append(@, IF e = "enable" THEN 1 ELSE 0), !.last = e] IN
       IF e = "disable" /\ x.ack
       THEN UNION {Disp([z EXCEPT !.acks = Append(@, z.ret.err)], n - 1) : z \in Do(y, MAck)}
       ELSE Disp(y, n - 1)

\* the server ended: its descriptors are closed, nothing else happens
Killed(s) == ReapAll([s EXCEPT !.cl = <<[NewClient EXCEPT !.ph = "gone"]>>, !.seat = <<>>, !.act = 0, !.nxt = 0, !.run = FALSE, !.kill = {},
                               !.rel = FALSE, !.acq = FALSE, !.rrel = FALSE, !.racq = FALSE], [o \in 1..Len(s.ofd) |-> o])
\* a VT switch while there is no server: the kernel takes back a VT whose owner is gone
Free(s, v) == IF s.vt[v].mode = 1 THEN [s EXCEPT !.vt[v] = VTInit] ELSE s
Chvt(s, v) == IF v = s.fg \/ (s.vt[s.fg].mode = 0 /\ s.vt[s.fg].kd = 1) THEN s ELSE Free([Free(s, s.fg) EXCEPT !.fg = v], v)

Bytes(a) == CASE a.op = "open_seat" -> MOpenSeat
              [] a.op = "close_seat" -> MCloseSeat
              [] a.op = "open_device" -> MOpenDev(a.b)
              [] a.op = "close_device" -> MCloseDev(a.n)
              [] a.op = "disable_seat" -> MAck
              [] a.op = "switch_session" -> MSwitch(a.n)
              [] a.op = "dispatch" -> MAck
              [] OTHER -> MPing
Requests == {"open_device", "close_device", "disable_seat", "switch_session"}

\* the application closes its end
HangUp(x) == IF ~x.k.run THEN {x} ELSE {[x EXCEPT !.k = ClearOut(t), !.end = "exit0"] : t \in BStep(x.k, <<[a |-> "shut", c |-> 1]>>)}
\* the application dies
DropAll(s) == DropCli(s, OwnedBy(s, 1))
Die(x) == {[y EXCEPT !.ap = "dead", !.evq = <<>>, !.k = DropAll(@)] :
             y \in IF ~x.k.run THEN {x} ELSE {[x EXCEPT !.k = ClearOut(t), !.end = "exit0"] : t \in BStep(x.k, <<Hup>>)}}

Clear(x) == [x EXCEPT !.cbs = <<>>, !.acks = <<>>, !.ret = Ret(0, 0, 0)]
OnEnv(x, a) ==
  IF x.k.run THEN {After(x, t) : t \in BStep(x.k, <<a>>)}
  ELSE IF a.a = "closefd" THEN {[x EXCEPT !.k = Env(@, a)]}
  ELSE IF a.a = "chvt" THEN {[x EXCEPT !.k = Chvt(@, a.v)]} ELSE {x}

\* states after action a
Succs(x0, a) ==
  LET x == Clear(x0) IN
  CASE a.op = "open_seat" ->
         IF x.ap # "none" THEN {x} ELSE Do([x EXCEPT !.k = Boot(@), !.ap = "open", !.evq = <<>>, !.post = 0, !.last = "disable"], MOpenSeat)
    [] a.op \in Requests -> IF x.ap = "open" THEN Do(x, Bytes(a)) ELSE {x}
    [] a.op = "dispatch" -> IF x.ap = "open" THEN Disp([x EXCEPT !.post = IF x.k.run THEN 0 ELSE 1], Len(x.evq)) ELSE {x}
    [] a.op = "close_seat" ->
         IF x.ap # "open" THEN {x}
         \* what is still to be told may be told then
         ELSE UNION {UNION {{[w EXCEPT !.ap = "none", !.evq = <<>>, !.ret = y.ret] : w \in HangUp(z)} : z \in Disp(y, 0)} : y \in Do(x, MCloseSeat)}
    [] a.op = "env" -> OnEnv(x, a.e)
    [] a.op = "killsrv" -> IF x.k.run THEN {[x EXCEPT !.k = Killed(@), !.end = "sig9", !.wild = TRUE]} ELSE {x}
    \* the application dies during a call: what it asked for may have been done or not
    [] a.op = "die" -> Die(IF a.c = "open_seat" /\ x.ap = "none" THEN [x EXCEPT !.k = Boot(@)] ELSE x)
                       \cup (IF a.c = "open_seat" THEN IF x.ap = "none" THEN UNION {Die(y) : y \in Do([x EXCEPT !.k = Boot(@)], MOpenSeat)} ELSE {}
                             ELSE IF x.ap # "open" \/ a.c = "none" THEN {}
                             ELSE UNION {Die(y) : y \in Do(x, Bytes([a EXCEPT !.op = a.c]))}
                                  \cup (IF a.c = "dispatch" THEN UNION {Die(y) : y \in Disp(x, 0)} ELSE {}))
    [] OTHER -> {x}

----------------------------------------------------------------------------
(* Properties *)

\* without a seat, or without the application, there is no server and nothing is left of it
P24(x) ==
  /\ x.ap = "none" => ~x.k.run
  /\ x.ap = "dead" => ~x.k.run /\ \A o \in 1..Len(x.k.ofd) : x.k.ofd[o].cli = 0
  /\ ~x.k.run => /\ \A o \in 1..Len(x.k.ofd) : SrvHeld(x.k, o) = 0
                 /\ (x.end = "exit0" /\ ~x.wild) => /\ \A p \in DOMAIN x.k.mast : x.k.mast[p] = 0
                                       /\ \A o \in 1..Len(x.k.ofd) : (x.k.ofd[o].k = "evdev" /\ x.k.ofd[o].cli > 0) => x.k.ofd[o].rev
                                       /\ \A v \in 1..NVT : x.k.vt[v].kd = 0 /\ x.k.vt[v].kb = 1
  \* the application's view: events alternate, and once they are delivered it knows where it stands
  /\ \A j \in 1..Len(x.evq) : x.evq[j] # IF j = 1 THEN x.last ELSE x.evq[j - 1]
  /\ (x.ap = "open" /\ x.k.run /\ x.evq = <<>>) => (x.last = "enable" <=> x.k.cl[1].ph = "active")
  /\ (x.k.run /\ ~x.wild) => P01(x.k) /\ P02(x.k) /\ P05(x.k) /\ P07(x.k) /\ P08(x.k) /\ P09(x.k) /\ P10(x.k)
=============================================================================
