------------------------------ MODULE LaunchTrace ------------------------------
EXTENDS Launch, TLC, Json, IOUtils
CONSTANT Facets
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES i, k, S, bad
LStart(tr) == {"i"}
LNexts(s, a) == IF Follow(Begin(a), a.log).ok THEN {"i"} ELSE {}
LMatch(f, p, s, a, o) == TRUE
LShow(s) == s
INSTANCE UnitTrace WITH Start <- LStart, Nexts <- LNexts, Match <- LMatch, Show <- LShow
=============================================================================
