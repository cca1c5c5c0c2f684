--------------------------------- MODULE MCConn ---------------------------------
EXTENDS Conn, TLC, TLCExt, Json
CONSTANTS Sizes,    \* byte counts of operations
          FdSizes,  \* how many descriptors arrive at once
          Plans,    \* scripted kernels
          Dirs,     \* subset of {"in", "out", "fd"}
          MaxFd, Emit
VARIABLES s, lab
vars == <<s, lab>>

PlanOf(p) == CASE p = "all" -> <<>> [] p = "again" -> <<0>> [] p = "part" -> <<96, 0>> [] p = "intr" -> <<-1, 32, -1>>
               [] p = "pipe" -> <<-2>> [] p = "bits" -> <<32, 64, 96>>
Least(a, b) == IF a < b THEN a ELSE b
\* actions, each with its line for the driver
Out == {[op |-> "put", n |-> n, plan |-> PlanOf(p), res |-> IF s.on + n > CAP THEN ResOf(s.on, PlanOf(p)) ELSE <<>>] : n \in Sizes, p \in Plans}
       \cup {[op |-> "flush", plan |-> PlanOf(p), res |-> ResOf(s.on, PlanOf(p))] : p \in Plans}
In == {[op |-> "read", n |-> n, k |-> k, m |-> Least(n, CAP - s.in), cl |-> {}] : n \in Sizes \ {0}, k \in FdSizes}
      \cup {[op |-> "read", n |-> n, k |-> 0, m |-> 0, cl |-> {}] : n \in {0, -1}}
      \cup {[op |-> "get", n |-> n] : n \in Sizes}
      \cup {[op |-> "restore", n |-> n] : n \in Sizes \cap 1..s.h}
FdIn == {[op |-> "getfd"], [op |-> "closefds"]}
FdOut == {[op |-> "putfd"], [op |-> "closefds"]}
Acts == (IF "out" \in Dirs THEN Out ELSE {}) \cup (IF "in" \in Dirs THEN In ELSE {})
        \cup (IF "fdin" \in Dirs THEN FdIn ELSE {}) \cup (IF "fdout" \in Dirs THEN FdOut ELSE {})

Canon(t) == [t EXCEPT !.ip = @ % CAP, !.op = @ % CAP, !.fp = @ % FDCAP, !.gp = @ % 4,
                      !.keep = {x - t.fp - t.fn : x \in @}]
View == Canon(s)
Label(a) == CASE a.op = "put" -> <<"put", a.n>> \o a.plan
              [] a.op = "flush" -> <<"flush">> \o a.plan
              [] a.op = "read" -> <<"read", a.n, a.k>>
              [] a.op \in {"get", "restore"} -> <<a.op, a.n>>
              [] OTHER -> <<a.op>>
Init == s = Start0 /\ lab = [op |-> "none"]
Next == \E a \in Acts :
          /\ Legal(s, a)
          /\ s' = Step(s, a)[1]
          /\ lab' = a
          /\ IF Emit THEN PrintT(<<"T", TLCFP(Canon(s)), TLCFP(Canon(s')), ToJson(Label(a))>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
Few == s.gn <= MaxFd \/ s.gn >= FDCAP
I17 == Bounded(s)
A17 == [][Faithful(s, s', lab')]_vars
=============================================================================
