------------------------------ MODULE BackendTrace ------------------------------
EXTENDS Backend, TLC, Json, IOUtils
CONSTANT Facets
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES i, k, S, bad
BStart(tr) == {Idle}
BNexts(s, a) == {After(s, a)}
BMatch(f, p, s, a, o) ==
  CASE f = "calls" -> Ok(p, a, a.log)
    [] f = "fds" -> o.fds <= Held(s) /\ o.bad = 0
    [] OTHER -> TRUE
BShow(s) == s
INSTANCE UnitTrace WITH Start <- BStart, Nexts <- BNexts, Match <- BMatch, Show <- BShow
=============================================================================
