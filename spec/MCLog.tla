--------------------------------- MODULE MCLog ---------------------------------
EXTENDS Log, TLC, TLCExt, Json
CONSTANTS Handlers, Forms, Errnos, Emit
VARIABLES s, lab
vars == <<s, lab>>
Acts == {<<"level", n>> : n \in Levels} \cup {<<"handler", h>> : h \in Handlers \cup {"null"}} \cup {<<"init">>}
        \cup {<<"log", l, m, e>> : l \in Error..Debug, m \in Forms, e \in Errnos}
Init == s = Start0 /\ lab = <<>>
Next == \E a \in Acts : /\ s' = Step(s, a)
                        /\ lab' = a
                        /\ IF Emit THEN PrintT(<<"T", TLCFP(s), TLCFP(s'), ToJson(a)>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
View == s
I27 == s.level \in Levels /\ s.h \in Handlers \cup {"std"}
\* a message is told to at most one handler, the current one, and to none when it is above the level;
\* messages and initialisation change nothing unless the handler itself does
A27 == [][/\ Len(Told(s, lab')) <= 1
          /\ lab'[1] = "log" => (Told(s, lab') = <<>>) = (lab'[2] > s.level)
          /\ (lab'[1] = "log" /\ s.h \notin {"sw", "mute"}) => s' = s
          /\ \A x \in 1..Len(Told(s, lab')) : Told(s, lab')[x].to = s.h]_vars
=============================================================================
