---------------------------------- MODULE Log ----------------------------------
(***************************************************************************)
(* Log messages (common/log.c and its macros).  State: the level, and what *)
(* handles messages: "std" (standard error) or one of the application's    *)
(* handlers.  Operations:                                                  *)
(*   <<"level", n>>   <<"handler", h>>   <<"init">>   <<"wait">>           *)
(*   <<"log", l, m, e>>  a message of level l and form m while errno is e; *)
(*                    handlers leave errno changed and may themselves      *)
(*                    change level or handler ("sw": to "A"; "mute")       *)
(* An observation has the calls of handlers (which, level, text as it is   *)
(* meant to be), the lines on standard error (severity, text, and whether  *)
(* the time is that since the first initialisation) and the errno afterwards.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Silent == 0  Error == 1  Info == 2  Debug == 3
Levels == Silent..Debug
Start0 == [level |-> Silent, h |-> "std", init |-> FALSE]
Heard(s, l) == l <= s.level
Step(s, a) ==
  CASE a[1] = "level" -> [s EXCEPT !.level = a[2]]
    [] a[1] = "handler" -> [s EXCEPT !.h = IF a[2] = "null" THEN "std" ELSE a[2]]
    [] a[1] = "wait" -> s
    [] a[1] = "init" -> [s EXCEPT !.init = TRUE]
    [] a[1] = "log" -> IF ~Heard(s, a[2]) THEN s
                       ELSE IF s.h = "sw" THEN [s EXCEPT !.h = "A"]
                       ELSE IF s.h = "mute" THEN [s EXCEPT !.level = Silent]
                       ELSE s

\* who is told: a sequence of [to, level]
Told(s, a) == IF a[1] = "log" /\ Heard(s, a[2]) THEN <<[to |-> s.h, level |-> a[2]]>> ELSE <<>>

MatchCalls(s, a, o) ==
  LET t == SelectSeq(Told(s, a), LAMBDA x : x.to # "std") IN
  /\ Len(o.calls) = Len(t)
  /\ \A j \in 1..Len(t) : o.calls[j].h = t[j].to /\ o.calls[j].level = t[j].level /\ o.calls[j].text = 1
MatchErr(s, a, o) ==
  LET t == SelectSeq(Told(s, a), LAMBDA x : x.to = "std") IN
  /\ Len(o.err) = Len(t)
  /\ \A j \in 1..Len(t) : o.err[j].level = t[j].level /\ o.err[j].text = 1 /\ (s.init => o.err[j].time = 1)
MatchErrno(s, a, o) == a[1] = "log" => o.errno = a[4]
=============================================================================
