------------------------------ MODULE StartupTrace ------------------------------
EXTENDS Startup, TLC, Json, IOUtils
CONSTANT Facets
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES i, k, S, bad
LStart(tr) == {"none"}
LNexts(s, a) == IF a.op = "put" THEN {a.obj} ELSE LET r == Follow(Begin(s, a), a.log) IN IF r.ok THEN {r.s.after} ELSE {}
LMatch(f, p, s, a, o) == TRUE
LShow(s) == s
INSTANCE UnitTrace WITH Start <- LStart, Nexts <- LNexts, Match <- LMatch, Show <- LShow
=============================================================================
