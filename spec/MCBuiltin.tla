-------------------------------- MODULE MCBuiltin --------------------------------
(***************************************************************************)
(* Bounded instances of Builtin.                                           *)
(***************************************************************************)
EXTENDS Builtin, SeatdCanon, TLCExt, Json
CONSTANTS VTB, IMM, ACK,
          Calls,     \* calls the application makes
          PathsUsed, MaxOfd, MaxRef,
          VTs,
          Extra,     \* further actions: spurious, ext, term, kill, closefd
          Dies,      \* moments of death: 10 * number of the library's system call + manner
          Emit
VARIABLES x, lab
vars == <<x, lab>>

CFiles(t) == Files(t)
Canon24(y) == <<IF y.k.run THEN Canon(y.k) ELSE LET c == Canon([y.k EXCEPT !.cl = <<>>, !.seat = <<>>, !.act = 0, !.nxt = 0, !.kill = {}]) IN
                                               IF y.ap = "dead" THEN [c EXCEPT !.fg = 0, !.vt = <<>>] ELSE c,
                y.ap, y.evq, y.last, y.end, y.wild, y.post>>
Lab == [op |-> "", n |-> 0, b |-> <<>>, c |-> "none", how |-> 0, e |-> [a |-> "noop"]]
MaxId(t) == MaxS({d.id : d \in Range(t.cl[1].devs)} \cup {0})
Devs(t) == IF t.run THEN t.cl[1].devs ELSE <<>>
Openable(t) == {p \in PathsUsed :
                  /\ \A d \in Range(Devs(t)) : d.p = p => d.ref < MaxRef
                  /\ \A o \in Range(Files(t)) : t.ofd[o].p = p => t.ofd[o].cli < 2 * MaxRef
                  /\ (\E d \in Range(Devs(t)) : d.p = p /\ d.act) \/ (Len(Files(t)) < MaxOfd /\ (t.run => MaxId(t) < MaxOfd + 1))}
EnvA(e) == [Lab EXCEPT !.op = "env", !.e = e]
CallActs(y) ==
  LET t == y.k
      on(c, S) == IF c \in Calls THEN S ELSE {} IN
  on("open_device", {[Lab EXCEPT !.op = "open_device", !.b = Path(p)] : p \in Openable(t)})
  \cup on("close_device", {[Lab EXCEPT !.op = "close_device", !.n = d.id] : d \in Range(Devs(t))})
  \cup on("close_bad", {[Lab EXCEPT !.op = "close_device", !.n = 77]})
  \cup on("disable_seat", {[Lab EXCEPT !.op = "disable_seat"]})
  \cup on("switch_session", {[Lab EXCEPT !.op = "switch_session", !.n = n] : n \in VTs \cup {0}})
  \cup {[Lab EXCEPT !.op = "dispatch"], [Lab EXCEPT !.op = "close_seat"]}
Acts(y) ==
  LET t == y.k
      F == Files(t)
      on(c, S) == IF c \in Extra THEN S ELSE {} IN
  (IF y.ap = "none" THEN {[Lab EXCEPT !.op = "open_seat"]} \cup {[Lab EXCEPT !.op = "die", !.c = "open_seat", !.n = d \div 10, !.how = d % 10] : d \in Dies}
   ELSE CallActs(y) \cup {[a EXCEPT !.op = "die", !.c = a.op, !.b = a.b, !.how = 100 * a.n + d] : a \in IF Dies = {} THEN {} ELSE CallActs(y), d \in Dies}
        \cup on("die", {[Lab EXCEPT !.op = "die"]}))
  \cup (IF VTB THEN {EnvA([a |-> "chvt", v |-> v]) : v \in VTs} ELSE {})
  \cup {EnvA([a |-> "closefd", o |-> o]) : o \in {o \in Range(F) : t.ofd[o].cli > 0 /\ ("closefd" \in Extra \/ \A d \in Range(Devs(t)) : d.o # o)}}
  \cup (IF ~t.run THEN {} ELSE
        (IF VTB /\ ~IMM /\ (t.rel \/ t.acq) THEN {EnvA([a |-> "deliver", rel |-> t.rel, acq |-> t.acq])} ELSE {})
        \cup (IF VTB /\ ~IMM /\ t.rel /\ t.acq THEN {EnvA([a |-> "deliver", rel |-> TRUE, acq |-> FALSE]), EnvA([a |-> "deliver", rel |-> FALSE, acq |-> TRUE])} ELSE {})
        \cup on("spurious", {EnvA([a |-> "spurious", rel |-> TRUE, acq |-> FALSE]), EnvA([a |-> "spurious", rel |-> FALSE, acq |-> TRUE])})
        \cup on("ext", {EnvA([a |-> "ext", p |-> "/dev/dri/card0", on |-> b]) : b \in BOOLEAN})
        \cup on("term", {EnvA([a |-> "term"])})
        \cup on("kill", {[Lab EXCEPT !.op = "killsrv"]}))
Label(y, a) == IF a.op = "env" /\ a.e.a = "closefd" THEN [a EXCEPT !.e.o = Pos(Files(y.k), @)] ELSE a
\* the argument of the call an application dies in is kept apart from the moment
Real(a) == IF a.op = "die" /\ a.c # "open_seat" THEN [a EXCEPT !.n = a.how \div 100] ELSE a

Init == x = Start0(VTB, 1, IMM, ACK) /\ lab = Lab
Next == /\ x.ap # "dead"
        /\ \E a \in Acts(x) : \E y \in Succs(x, Real(a)) :
             /\ x' = TLCEval(y)
             /\ lab' = a
             /\ IF Emit THEN PrintT(<<"T", TLCFP(Canon24(x)), TLCFP(Canon24(y)), ToJson(Label(x, a))>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
View == Canon24(x)
Few == Len(x.evq) <= 3
I24 == P24(x)
\* access is withdrawn and the machine is in order as soon as the application is gone or has left, whatever it was doing
A24 == [][/\ lab'.op \in {"die", "close_seat"} => (~x'.k.run /\ (x.k.run => x'.end = "exit0"))
          /\ (x.k.run /\ x'.k.run /\ ~x.wild) => P03Step(x.k, x'.k)
          /\ lab'.op = "open_seat" => (x'.ret.v = 0 /\ x'.evq = <<"enable">> /\ x'.k.run)]_vars
=============================================================================
