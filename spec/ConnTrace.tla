-------------------------------- MODULE ConnTrace --------------------------------
EXTENDS Conn, TLC, Json, IOUtils
CONSTANT Facets
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES i, k, S, bad
CStart(tr) == {Start0}
Norm(a) == IF a.op = "read" THEN [a EXCEPT !.cl = {@[j] : j \in 1..Len(@)}] ELSE a
CNexts(s, b) == LET a == Norm(b) IN IF Legal(s, a) THEN {Step(s, a)[1]} ELSE {}
PAT == 251
Set(q) == {q[j] : j \in 1..Len(q)}
Once(q) == Cardinality(Set(q)) = Len(q)
\* the j-th sendmsg offered the right bytes and descriptors
Offered(p, a, j) ==
  LET b == Sends(p, SubSeq(a.res, 1, j - 1))  l == a.log[j] IN
  /\ l.len >= 1 /\ l.len <= b.on /\ l.first = b.op % PAT /\ l.ok = 1
  /\ l.fds = [x \in 1..b.gn |-> b.gp + x - 1]
CMatch(f, p, s, a, o) ==
  CASE f = "ret" -> LET r == Step(p, Norm(a))[2] IN
                    /\ (o.ret = -1) = (r[1] = -1) /\ o.err = r[2]
                    /\ (a.op = "get" /\ o.ret # -1) => o.ret = a.n
                    /\ (a.op = "read" /\ o.ret # -1) => o.ret = IF a.n = 0 THEN 0 ELSE s.in
                    /\ ~s.dead => o.pend = s.in
    [] f = "bytes" -> /\ (a.op = "get" /\ o.ret # -1 /\ a.n > 0) => (o.first = p.ip % PAT /\ o.ok = 1)
                      /\ a.op = "spin" => o.ok = 1
                      /\ a.op \in {"put", "flush"} => \A j \in 1..Len(a.log) : Offered(p, a, j)
    [] f = "fds" -> (a.op = "getfd" /\ o.ret # -1) => o.first = p.fp
    [] f = "closed" -> /\ o.bad = 0 /\ Once(o.clo) /\ Once(o.cli)
                       /\ IF a.op = "read" /\ s.dead THEN Set(o.clo) = {} /\ Set(o.cli) \subseteq (p.fp + p.fn)..(p.fp + p.fn + a.k - 1)
                          ELSE Set(o.clo) = Closed(p, a)[1] /\ Set(o.cli) = Closed(p, a)[2]
CShow(s) == s
INSTANCE UnitTrace WITH Start <- CStart, Nexts <- CNexts, Match <- CMatch, Show <- CShow
=============================================================================
