-------------------------------- MODULE ListTrace --------------------------------
EXTENDS List, TLC, Json, IOUtils
CONSTANT Facets
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES i, k, S, bad
LStart(tr) == {Empty(tr.nh)}
LNexts(s, a) == {Step(s, a)}
Rev(q) == [j \in 1..Len(q) |-> q[Len(q) + 1 - j]]
LMatch(f, p, s, a, o) ==
  CASE f = "fwd" -> \A h \in DOMAIN s : o.f[h] = s[h]
    [] f = "bwd" -> \A h \in DOMAIN s : o.b[h] = Rev(s[h])
    [] f = "empty" -> \A h \in DOMAIN s : (o.e[h] = 1) <=> (s[h] = <<>>)
LShow(s) == s
INSTANCE UnitTrace WITH Start <- LStart, Nexts <- LNexts, Match <- LMatch, Show <- LShow
=============================================================================
