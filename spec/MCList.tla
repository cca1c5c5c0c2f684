--------------------------------- MODULE MCList ---------------------------------
EXTENDS List, TLC, TLCExt, Json
CONSTANTS NH, NE, Emit
VARIABLES s, lab
vars == <<s, lab>>
H == 1..NH
E == 1..NE
Acts == {<<"ins", h, e>> : h \in H, e \in E} \cup {<<"app", h, e>> : h \in H, e \in E}
        \cup {<<"after", d, e>> : d \in E, e \in E} \cup {<<"del", e>> : e \in E} \cup {<<"init", e>> : e \in E}
        \cup {<<"take", g, h>> : g \in H, h \in H} \cup {<<"sweep", h, b>> : h \in H, b \in 0..1}
Init == s = Empty(NH) /\ lab = <<>>
Next == \E a \in Acts : /\ Legal(s, a)
                        /\ s' = Step(s, a)
                        /\ lab' = a
                        /\ IF Emit THEN PrintT(<<"T", TLCFP(s), TLCFP(s'), ToJson(a)>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
View == s
I26 == NoDup(s) /\ Disjoint(s) /\ Elems(s) \subseteq E
A26 == [][KeepsOrder(s, s', lab')]_vars
=============================================================================
