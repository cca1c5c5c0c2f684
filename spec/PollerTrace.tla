------------------------------- MODULE PollerTrace -------------------------------
EXTENDS Poller, TLC, Json, IOUtils
CONSTANT Facets
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES i, k, S, bad
PStart(tr) == {<<>>}
PNexts(s, a) ==
  LET r == Replay(s, a.log) IN
  IF ~r.ok THEN {}
  ELSE IF a.op[1] # "poll" THEN {r.s}
  ELSE IF RoundOk(r.s) THEN {EndRound(r.s)} ELSE {}
Sigs == <<10, 12>>
PMatch(f, p, s, a, o) ==
  CASE f = "calls" -> o.ret = 0
    [] f = "dfl" -> \A j \in 1..2 : (o.dfl[j] = 1) <=> (a.op[1] = "finish" \/ Sigs[j] \notin Caught(s))
PShow(s) == s
INSTANCE UnitTrace WITH Start <- PStart, Nexts <- PNexts, Match <- PMatch, Show <- PShow
=============================================================================
