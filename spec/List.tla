---------------------------------- MODULE List ----------------------------------
(***************************************************************************)
(* The container of common/linked_list.c: heads h \in 1..NH, elements      *)
(* e \in 1..NE.  The state is the sequence each head stands for; elements  *)
(* in no sequence are free.                                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

Empty(nh) == [h \in 1..nh |-> <<>>]
Member(s, e) == \E h \in DOMAIN s : \E j \in DOMAIN s[h] : s[h][j] = e
HeadOf(s, e) == CHOOSE h \in DOMAIN s : \E j \in DOMAIN s[h] : s[h][j] = e
At(q, e) == CHOOSE j \in DOMAIN q : q[j] = e

\* is the operation within the contract of the interface?
Legal(s, a) ==
  CASE a[1] = "ins" -> ~Member(s, a[3])                        \* at the front
    [] a[1] = "app" -> ~Member(s, a[3])                        \* behind the last element
    [] a[1] = "after" -> Member(s, a[2]) /\ ~Member(s, a[3])   \* behind an element
    [] a[1] = "del" -> Member(s, a[2])
    [] a[1] = "init" -> ~Member(s, a[2])                       \* re-initialise a free element
    [] a[1] = "take" -> a[2] # a[3]
    [] a[1] = "sweep" -> TRUE                                  \* remove some while iterating

Step(s, a) ==
  CASE a[1] = "ins" -> [s EXCEPT ![a[2]] = <<a[3]>> \o @]
    [] a[1] = "app" -> [s EXCEPT ![a[2]] = @ \o <<a[3]>>]
    [] a[1] = "after" -> LET h == HeadOf(s, a[2])  j == At(s[h], a[2]) IN
                         [s EXCEPT ![h] = SubSeq(@, 1, j) \o <<a[3]>> \o SubSeq(@, j + 1, Len(@))]
    [] a[1] = "del" -> LET h == HeadOf(s, a[2]) IN [s EXCEPT ![h] = SelectSeq(@, LAMBDA x : x # a[2])]
    [] a[1] = "init" -> s
    [] a[1] = "take" -> [s EXCEPT ![a[2]] = s[a[3]] \o s[a[2]], ![a[3]] = <<>>]
    [] a[1] = "sweep" -> [s EXCEPT ![a[2]] = SelectSeq(@, LAMBDA x : x % 2 = a[3])]

\* properties of the specification
NoDup(s) == \A h \in DOMAIN s : Cardinality(ToSet(s[h])) = Len(s[h])
Disjoint(s) == \A g, h \in DOMAIN s : g # h => ToSet(s[g]) \cap ToSet(s[h]) = {}
Elems(s) == UNION {ToSet(s[h]) : h \in DOMAIN s}
\* an operation keeps the relative order of everything it does not insert, and loses nothing but what it removes
KeepsOrder(s, t, a) ==
  /\ a[1] \in {"ins", "app", "after"} => Elems(t) = Elems(s) \cup {a[3]}
  /\ a[1] = "del" => Elems(t) = Elems(s) \ {a[2]}
  /\ a[1] \in {"init", "take"} => Elems(t) = Elems(s)
  /\ \A h \in DOMAIN s : \A x, y \in ToSet(s[h]) :
        (x # y /\ x \in Elems(t) /\ y \in Elems(t) /\ At(s[h], x) < At(s[h], y)) =>
          /\ HeadOf(t, x) = HeadOf(t, y)
          /\ At(t[HeadOf(t, x)], x) < At(t[HeadOf(t, y)], y)
=============================================================================
