------------------------------- MODULE SeatdTrace -------------------------------
(***************************************************************************)
(* Judges runs recorded from the real server against Seatd.  A run is a    *)
(* sequence of steps [as, o]: the environment actions taken and everything *)
(* that could be observed once the server had settled.  The set of         *)
(* specification states that explain the observations so far is carried    *)
(* along; a run conforms as long as that set is not empty.                 *)
(*                                                                         *)
(* Facets selects the aspects of the observations that are compared, i.e.  *)
(* those the property under examination speaks about.                      *)
(***************************************************************************)
EXTENDS SeatdObs, Json, IOUtils

CONSTANT Facets

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES i, k, S, bad
vars == <<i, k, S, bad>>

\* pairs <<state before, state after>> allowed by the specification
Succ(as) == UNION {{<<c, t>> : t \in StepSet(c, as)} : c \in S}
Fits(o) == {x \in Succ(Traces[i].steps[k].as) : \A f \in Facets : Match(f, x[1], x[2], o)}

Brief(t) == [cl |-> [c \in 1..Len(t.cl) |-> [ph |-> t.cl[c].ph, sess |-> t.cl[c].sess, rx |-> t.cl[c].rx, devs |-> t.cl[c].devs]],
             act |-> t.act, fg |-> t.fg, vt |-> t.vt, ofd |-> t.ofd, mast |-> t.mast, run |-> t.run]

Report(o) ==
  LET A == Succ(Traces[i].steps[k].as)
      none == {f \in Facets : \A x \in A : ~Match(f, x[1], x[2], o)}
  IN PrintT(<<"DIV", ToJson([trace |-> i, step |-> k, facets |-> IF none = {} THEN {"joint"} ELSE none,
                             cands |-> Cardinality(A), expected |-> Brief((CHOOSE x \in A : TRUE)[2])])>>)

Init == /\ i \in 1..Len(Traces)
        /\ k = 1
        /\ S = {Init0(Traces[i].vtb, Traces[i].fg, Traces[i].imm)}
        /\ bad = FALSE
Next == /\ ~bad /\ (\A t \in S : ~t.off) /\ k <= Len(Traces[i].steps)
        /\ i' = i /\ k' = k + 1
        /\ LET o == Traces[i].steps[k].o
               F == Fits(o) IN
           IF F # {} THEN S' = TLCEval({ClearOut(x[2]) : x \in F}) /\ bad' = FALSE
           ELSE Report(o) /\ S' = {} /\ bad' = TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
