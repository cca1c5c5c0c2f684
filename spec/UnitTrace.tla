-------------------------------- MODULE UnitTrace --------------------------------
(***************************************************************************)
(* Judges recorded runs against a specification given by                   *)
(*   Start(tr)       the states a run tr may start in,                     *)
(*   Nexts(s, a)     the states the specification allows after action a,   *)
(*   Match(f,p,s,a,o) does observation o, made after action a taken in     *)
(*                   state p, agree with state s in aspect f?              *)
(* The set of states that explain what was seen so far is carried along; a *)
(* run conforms as long as it is not empty.                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Traces, Start(_), Nexts(_, _), Match(_, _, _, _, _), Show(_), Facets

VARIABLES i, k, S, bad
vars == <<i, k, S, bad>>

Crashed(o) == "crash" \in DOMAIN o
Succ(a) == UNION {{<<p, t>> : t \in Nexts(p, a)} : p \in S}
Report(a, o) ==
  LET A == Succ(a)
      none == {f \in Facets : Crashed(o) \/ \A x \in A : ~Match(f, x[1], x[2], a, o)}
  IN PrintT(<<"DIV", ToJson([trace |-> i, step |-> k, facets |-> IF none = {} THEN {"joint"} ELSE none,
                             cands |-> Cardinality(A),
                             expected |-> IF A = {} THEN "nothing" ELSE Show((CHOOSE x \in A : TRUE)[2])])>>)

Init == i \in 1..Len(Traces) /\ k = 1 /\ S = Start(Traces[i]) /\ bad = FALSE
Next == /\ ~bad /\ k <= Len(Traces[i].steps)
        /\ i' = i /\ k' = k + 1
        /\ LET a == Traces[i].steps[k].a
               o == Traces[i].steps[k].o
               F == IF Crashed(o) THEN {} ELSE {x \in Succ(a) : \A f \in Facets : Match(f, x[1], x[2], a, o)}
           IN IF F # {} THEN S' = TLCEval({x[2] : x \in F}) /\ bad' = FALSE
              ELSE Report(a, o) /\ S' = {} /\ bad' = TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
