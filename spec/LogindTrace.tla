------------------------------ MODULE LogindTrace ------------------------------
EXTENDS Logind, TLC, Json, IOUtils
CONSTANT Facets
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES i, k, S, bad
LStart(tr) == {Idle}
LNexts(s, a) == LET r == Replay(s, a.log, Facets) IN IF r.ok THEN {r.s} ELSE {}
LMatch(f, p, s, a, o) ==
  CASE f = "fds" -> s.off \/ (o.bad = 0 /\ HeldOk(s, o.fds))
    [] OTHER -> TRUE
LShow(s) == s
INSTANCE UnitTrace WITH Start <- LStart, Nexts <- LNexts, Match <- LMatch, Show <- LShow
=============================================================================
