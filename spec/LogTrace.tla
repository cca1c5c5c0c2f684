-------------------------------- MODULE LogTrace --------------------------------
EXTENDS Log, TLC, Json, IOUtils
CONSTANT Facets
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES i, k, S, bad
LStart(tr) == {Start0}
LNexts(s, a) == {Step(s, a)}
LMatch(f, p, s, a, o) ==
  CASE f = "calls" -> MatchCalls(p, a, o)
    [] f = "err" -> MatchErr(p, a, o)
    [] f = "errno" -> MatchErrno(p, a, o)
LShow(s) == s
INSTANCE UnitTrace WITH Start <- LStart, Nexts <- LNexts, Match <- LMatch, Show <- LShow
=============================================================================
