-------------------------------- MODULE MCBackend --------------------------------
(***************************************************************************)
(* The loop of libseat_open_seat and the no-op backend as algorithms: the  *)
(* log of every operation must be one Backend.tla allows, for every name,  *)
(* listener, combination of failing backends and sequence of calls.        *)
(***************************************************************************)
EXTENDS Backend, TLC, TLCExt, Json
CONSTANTS Names, Listeners, MSeatd, MLogind, MBuiltin, MNoop,   \* failures of each
          Tmos,      \* timeouts (99: none)
          Devices,
          MaxRuns,   \* seats opened, one after another
          Emit
VARIABLES s, runs, open, setup, lab, ok, cbs
vars == <<s, runs, open, setup, lab, ok, cbs>>

Table == <<"seatd", "logind", "builtin", "noop">>
M(x) == [seatd |-> x[1], logind |-> x[2], builtin |-> x[3], noop |-> x[4]]
Lab == [op |-> "end", x |-> "", y |-> "", n |-> 0, m |-> M(<<"o", "o", "o", "o">>)]
Ret(v, err) == [t |-> "ret", v |-> v, err |-> err, name |-> "", file |-> -1, clo |-> 0, nb |-> 0, rw |-> 0, kid |-> 0, kst |-> -1]
Try(b) == IF b = "noop" THEN <<>> ELSE <<[t |-> "try", b |-> b]>>

RECURSIVE Select(_, _, _)     \* the loop over the table
Select(j, log, m) ==
  IF j > Len(Table) THEN [log |-> Append(log, Ret(-1, 38)), b |-> "none"]
  ELSE IF Table[j] = "noop" THEN Select(j + 1, log, m)
  ELSE LET l == log \o Try(Table[j]) IN
       IF Opens(Table[j], m) THEN [log |-> l, b |-> Table[j]] ELSE Select(j + 1, l, m)
Opened(r) == IF r.b = "none" THEN r ELSE [r EXCEPT !.log = Append(@, [Ret(0, 0) EXCEPT !.name = Name(r.b), !.kid = IF r.b = "builtin" THEN 1 ELSE 0])]
Open(a) ==
  IF a.y # "ok" THEN [log |-> <<Ret(-1, 22)>>, b |-> "none"]
  ELSE IF a.x = "unset" THEN Opened(Select(1, <<>>, a.m))
  ELSE LET j == {i \in 1..Len(Table) : Table[i] = a.x} IN
       IF j = {} THEN [log |-> <<Ret(-1, 22)>>, b |-> "none"]
       ELSE IF Opens(a.x, a.m) THEN Opened([log |-> Try(a.x), b |-> a.x])
       ELSE [log |-> Try(a.x) \o <<Ret(-1, 5)>>, b |-> "none"]
Log(a) ==
  CASE a.op = "open" -> Open(a).log
    [] a.op = "close_seat" -> <<[Ret(0, 0) EXCEPT !.kst = IF open = "builtin" THEN 0 ELSE -1]>>
    [] a.op = "seat_name" -> <<[Ret(0, 0) EXCEPT !.name = Name(open)]>>
    [] a.op = "get_fd" -> <<Ret(5, 0)>>
    [] a.op = "dispatch" -> IF setup THEN <<[t |-> "cb", v |-> 1, ok |-> 1], Ret(1, 0)>>
                            ELSE IF a.n = 0 THEN <<Ret(0, 0)>> ELSE <<[t |-> "idle", tmo |-> a.n], Ret(0, 0)>>
    [] a.op = "open_device" -> IF a.x \in {"link", "sub", "none"} THEN <<Ret(-1, 2)>>
                               ELSE <<[Ret(6, 0) EXCEPT !.file = (CHOOSE j \in 1..4 : Files[j] = a.x) - 1, !.clo = 1, !.nb = 1, !.rw = 1]>>
    [] a.op = "switch_session" -> <<Ret(-1, 38)>>
    [] OTHER -> <<Ret(0, 0)>>

Modes == {M(<<p, q, r, t>>) : p \in MSeatd, q \in MLogind, r \in MBuiltin, t \in MNoop}
Acts == {[Lab EXCEPT !.op = "open", !.x = nm, !.y = l, !.m = m] : nm \in Names, l \in Listeners, m \in Modes}
        \cup {[Lab EXCEPT !.op = "dispatch", !.n = IF t = 99 THEN -1 ELSE t] : t \in Tmos}
        \cup {[Lab EXCEPT !.op = "open_device", !.x = d] : d \in Devices}
        \cup {[Lab EXCEPT !.op = c] : c \in {"close_device", "switch_session", "disable_seat", "get_fd", "seat_name", "close_seat"}}
ActSet == TLCEval(Acts)
Init == s = Idle /\ runs = 0 /\ open = "none" /\ setup = FALSE /\ lab = Lab /\ ok = TRUE /\ cbs = 0
View == <<s, runs, open, setup>>
Next == \E a \in ActSet :
  /\ Enabled(s, a) /\ (a.op = "open" => runs < MaxRuns)
  /\ s' = After(s, a)
  /\ ok' = Ok(s, a, Log(a))
  /\ runs' = IF a.op = "open" THEN runs + 1 ELSE runs
  /\ open' = IF a.op = "open" THEN Open(a).b ELSE IF a.op = "close_seat" THEN "none" ELSE open
  /\ setup' = IF a.op = "open" THEN Open(a).b = "noop" ELSE IF a.op \in {"dispatch", "close_seat"} THEN FALSE ELSE setup
  /\ cbs' = IF a.op = "open" THEN 0 ELSE cbs + Len(Evs(Log(a), "cb"))
  /\ lab' = a
  /\ IF Emit THEN PrintT(<<"T", TLCFP(View), TLCFP(<<s', runs', open', setup'>>), ToJson(a)>>) ELSE TRUE
Spec == Init /\ [][Next]_vars

I22 == ok
       /\ cbs <= 1                                            \* exactly one enable per seat
       /\ (lab.op = "open" => /\ (open = "noop" => lab.x = "noop")            \* never chosen by itself
                              /\ (lab.x \in Backends => open \in {lab.x, "none"})  \* never another one
                              /\ (lab.y # "ok" => open = "none"))
A22 == [][(open' = s'.st) /\ (setup' = s'.init)]_vars
=============================================================================
