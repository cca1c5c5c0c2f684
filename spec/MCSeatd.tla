--------------------------------- MODULE MCSeatd ---------------------------------
(***************************************************************************)
(* Bounded instances of Seatd: a finite alphabet of environment actions,   *)
(* explored exhaustively (breadth first) or at random (simulation).        *)
(***************************************************************************)
EXTENDS SeatdCanon, TLCExt, Json, IOUtils

CONSTANTS VTB,        \* VT-bound seat?
          IMM,        \* signals delivered at once?
          MaxLive,    \* connections alive at a time
          MaxOfd,     \* files open at a time
          VTs,        \* VTs the user switches between
          MaxRef,     \* references of one client to one file
          PathsUsed,  \* devices asked for
          Extra,      \* further groups of actions, see Acts
          Bud,        \* output budgets
          Emit        \* print the transitions?

VARIABLES s, lab
vars == <<s, lab>>

----------------------------------------------------------------------------
Snd(c, b) == [a |-> "send", c |-> c, b |-> b, nf |-> 0]

\* at most two references of one client to one file, bounded handles
Openable(t, c) == {p \in PathsUsed :
                      /\ \A d \in Range(t.cl[c].devs) : d.p = p => d.ref < MaxRef
                      /\ \A o \in Range(Files(t)) : t.ofd[o].p = p => t.ofd[o].cli < 2 * MaxRef}
MaxId(t, c) == MaxS({d.id : d \in Range(t.cl[c].devs)} \cup {0})

Acts(t) ==
  LET C == Range(Conns(t))
      F == Files(t)
      seated == {i \in C : InSeat(t.cl[i])}
      on(x, S) == IF x \in Extra THEN S ELSE {}
      active == {i \in seated : t.cl[i].ph = "active"}
      sess == {t.cl[i].sess : i \in seated} \cup (IF t.vtb THEN VTs ELSE {})
      fits(c, p) == (\E d \in Range(t.cl[c].devs) : d.p = p /\ d.act) \/ (Len(F) < MaxOfd /\ MaxId(t, c) < MaxOfd + 1)
  IN (IF Cardinality(C) < MaxLive THEN {[a |-> "connect"]} ELSE {})
     \cup {Snd(c, MOpenSeat) : c \in {i \in C : t.cl[i].ph = "idle"} \cup on("bad", C)}
     \cup {Snd(c, MCloseSeat) : c \in seated \cup on("bad", C)}
     \cup {Snd(c, MAck) : c \in {i \in seated : t.cl[i].ph = "pend"} \cup on("bad", seated)}
     \cup {Snd(c, MSwitch(n)) : c \in active \cup on("bad", seated), n \in sess \cup on("bad", {-1, 0, 99})}
     \cup UNION {{Snd(c, MOpenDev(Path(p))) : p \in {p \in Openable(t, c) : fits(c, p)}} : c \in active \cup on("bad", seated)}
     \cup UNION {{Snd(c, MCloseDev(d.id)) : d \in Range(t.cl[c].devs)} : c \in seated}
     \cup on("bad", {Snd(c, MCloseDev(7)) : c \in seated})
     \cup on("ping", {Snd(c, MPing) : c \in C})
     \cup {[a |-> "close", c |-> c] : c \in C}
     \cup on("shut", {[a |-> "shut", c |-> c] : c \in C})
     \cup (IF t.vtb THEN {[a |-> "chvt", v |-> v] : v \in VTs} ELSE {})
     \cup (IF t.vtb /\ ~IMM
           THEN (IF t.rel THEN {[a |-> "deliver", rel |-> TRUE, acq |-> FALSE]} ELSE {})
                \cup (IF t.acq THEN {[a |-> "deliver", rel |-> FALSE, acq |-> TRUE]} ELSE {})
                \cup (IF t.rel /\ t.acq THEN {[a |-> "deliver", rel |-> TRUE, acq |-> TRUE]} ELSE {})
           ELSE {})
     \cup on("term", {[a |-> "term"], [a |-> "fpoll"]})
     \cup on("spurious", {[a |-> "spurious", rel |-> TRUE, acq |-> FALSE],
                          [a |-> "spurious", rel |-> FALSE, acq |-> TRUE]})
     \cup on("ext", {[a |-> "ext", p |-> "/dev/dri/card0", on |-> b] : b \in BOOLEAN})
     \cup {[a |-> "closefd", o |-> o] : o \in {o \in Range(F) : t.ofd[o].cli > 0 /\
              ("closefd" \in Extra \/ \A c \in C : \A d \in Range(t.cl[c].devs) : d.o # o)}}
     \cup on("budget", {[a |-> "budget", c |-> c, n |-> IF n >= 1000 THEN -1 ELSE n] : c \in C, n \in Bud})

\* an action in terms of ranks among what is alive, as the test driver resolves it
Label(t, a) ==
  LET C == Conns(t) IN
  CASE a.a = "send" /\ ~t.vtb /\ a.b[1] = 6 /\ a.b[6] = 0 /\ a.b[5] > 0 /\ a.b[5] # 99 ->
         [a |-> "sw", c |-> Pos(C, a.c),
          k |-> Pos(C, CHOOSE i \in Range(C) : InSeat(t.cl[i]) /\ t.cl[i].sess = I32(a.b, 5))]
    [] a.a \in {"send", "close", "shut", "budget"} -> [a EXCEPT !.c = Pos(C, @)]
    [] a.a = "closefd" -> [a EXCEPT !.o = Pos(Files(t), @)]
    [] OTHER -> a

Init == s = Init0(VTB, 1, IMM) /\ lab = <<>>
Next == /\ s.run
        /\ \E a \in Acts(s), f \in (IF "tty" \in Extra THEN BOOLEAN ELSE {FALSE}) : \E t \in StepSet(s, IF f THEN <<[a |-> "ftty"], a>> ELSE <<a>>) :
             /\ s' = TLCEval(t)
             /\ lab' = a
             /\ IF Emit THEN PrintT(<<"T", TLCFP(Canon(s)), TLCFP(Canon(t)), ToJson(IF f THEN Label(s, a) @@ [tty |-> TRUE] ELSE Label(s, a))>>) ELSE TRUE
Spec == Init /\ [][Next]_vars

View == Canon(s)

\* a client that does not read can be sent messages without end
OutBound == \A i \in 1..Len(s.cl) : Len(s.cl[i].out) <= 2

I01 == P01(s)
I02 == P02(s)
I03 == "ext" \in Extra \/ P03(s)
I04 == P04(s)
I05 == P05(s)
\* nothing can be promised about VTs that cannot be opened; everything else holds all the same
Muted == "tty" \in Extra
I07 == Muted \/ P07(s)
I08 == Muted \/ P08(s)
I09 == Muted \/ P09(s)
I10 == P10(s)
I14 == P14(s)
I15 == Muted \/ P15(s)
A01 == [][P01Step(s, s')]_vars
A03 == [][P03Step(s, s')]_vars
A04 == [][P04Step(s, s')]_vars
A06 == [][P06Step(s, s')]_vars
A08 == [][Muted \/ P08Step(s, s')]_vars
A10 == [][P10Step(s, s')]_vars
A11 == [][P11Step(s, s', lab') /\ P11Others(s, s', lab')]_vars
A12 == [][P12Step(s, s', lab')]_vars
A13 == [][P13Step(s, s')]_vars
=============================================================================
