-------------------------------- MODULE MCPoller --------------------------------
EXTENDS Poller, TLC, TLCExt, Json
CONSTANTS MaxSrc,   \* sources alive at a time
          Fdx,      \* descriptors
          Sigs,     \* signals
          Masks, Readies,
          CbOps,    \* groups of operations in callbacks
          Emit
VARIABLES w, lab, pre
vars == <<w, lab, pre>>

Whens == {"none", "before", "intr", "late", "mid", "drain"}
n == Len(LiveSeq(w.s))
Add == IF n < MaxSrc THEN {<<"addfd", x, m>> : x \in Fdx, m \in Masks} \cup {<<"addsig", g>> : g \in Sigs} ELSE {}
Chg == {<<"destroy", r>> : r \in 1..n} \cup {<<"update", r, m>> : r \in {r \in 1..n : w.s[LiveSeq(w.s)[r]].k = "fd"}, m \in Masks}
Rse == {<<"raise", g>> : g \in Sigs \cap Caught(w.s)}
InCb == (IF "add" \in CbOps THEN Add ELSE {}) \cup (IF "chg" \in CbOps THEN Chg ELSE {}) \cup (IF "raise" \in CbOps THEN {<<"raise", g>> : g \in Sigs} ELSE {})
Cbs == {<<>>} \cup {<<[r |-> r, o |-> o]>> : r \in 1..n, o \in InCb}
WhenSig == {<<"none", 0>>} \cup ((Whens \ {"none"}) \X Sigs)
Polls == {<<"poll", ws[1], ws[2]>> \o [j \in 1..Cardinality(Fdx) |-> rd[j]] \o (IF cb = <<>> THEN <<>> ELSE <<cb[1].r>> \o cb[1].o) :
            ws \in WhenSig, rd \in [1..Cardinality(Fdx) -> Readies], cb \in Cbs}
NF == Cardinality(Fdx)
CbOf(a) == IF Len(a) > 3 + NF THEN <<[r |-> a[4 + NF], o |-> SubSeq(a, 5 + NF, Len(a))]>> ELSE <<>>
Do(a) == IF a[1] = "poll" THEN Round(w, a[2], a[3], [x \in Fdx |-> a[3 + x]], CbOf(a))
         ELSE DoOp([w EXCEPT !.log = <<>>], a)

\* forget dead sources
Tidy(v) == [v EXCEPT !.s = LET L == LiveSeq(v.s) IN [j \in 1..Len(L) |-> EndRound(v.s)[L[j]]], !.cb = <<>>]
Canon(v) == [Tidy(v) EXCEPT !.log = <<>>]

Init == w = [s |-> <<>>, pipe |-> FALSE, log |-> <<>>, cb |-> <<>>] /\ lab = <<"none">> /\ pre = <<>>
Next == \E a \in Add \cup Chg \cup Rse \cup Polls :
          /\ pre' = w.s
          /\ w' = TLCEval(LET v == Do(a) IN [Tidy(v) EXCEPT !.log = v.log])
          /\ lab' = a
          /\ IF Emit THEN PrintT(<<"T", TLCFP(Canon(w)), TLCFP(Canon(w')), ToJson(a)>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
View == Canon(w)

\* no signal is forgotten: whoever is owed a call will be woken up
I18 == \A i \in 1..Len(w.s) : (w.s[i].live /\ w.s[i].owed) => w.pipe
\* the algorithm only does what Replay allows
A18 == [][LET r == Replay(pre', w'.log) IN r.ok /\ (lab'[1] = "poll" => (RoundOk(r.s) \/ w'.log[Len(w'.log)].t = "block"))]_vars
=============================================================================
