------------------------------- MODULE MCStartup -------------------------------
(***************************************************************************)
(* seatd's main() as an algorithm, run again and again over the same       *)
(* directory with every command line, object and failure.                  *)
(***************************************************************************)
EXTENDS Startup, TLC, TLCExt, Json
CONSTANTS Toks,      \* options (names, see Tok)
          MaxOpts,
          FOpts,     \* command lines with which failures are tried
          Emit
VARIABLES obj, lab, ok
vars == <<obj, lab, ok>>

Tok(t) == CASE t = "ud" -> <<"u", "daemon">> [] t = "ub" -> <<"u", "bin">> [] t = "ux" -> <<"u", "no-such-user">> [] t = "gd" -> <<"g", "daemon">>
            [] t = "gx" -> <<"g", "no-such-group">> [] t = "n" -> <<"n", NFD>> [] t = "nx" -> <<"n", "-1">> [] t = "l" -> <<"l", "debug">> [] t = "lx" -> <<"l", "loud">>
            [] t = "u" -> <<"u", "">> [] OTHER -> <<t, "">>
\* an option without its argument can only come last
Lines == {l \in UNION {[1..k -> Toks] : k \in 0..MaxOpts} : \A j \in 1..Len(l) : l[j] = "u" => j = Len(l)}
FLine(n) == CASE n = "ug" -> <<"n", "ud", "gd">> [] n = "z" -> <<"z", "n">> [] n = "n" -> <<"n">> [] OTHER -> <<>>
Faults == {<<c, k>> : c \in {"socket", "bind", "listen", "chmod", "chown", "write", "pipe"}, k \in {1}} \cup {<<"unlink", 1>>, <<"unlink", 2>>}
          \cup {<<"calloc", k>> : k \in 1..7}
NoFault == [c |-> "", n |-> 0]
Cfg(l, f, r, e) == [op |-> "run", opts |-> [j \in 1..Len(l) |-> Tok(l[j])], fail |-> f, race |-> r, end |-> e]

\* main(): the events it causes.  hit(c): the injected failure strikes
Snap(t, p, b) == [t |-> t, b |-> b, kind |-> "sock", mine |-> 1, conn |-> 1,
                  mode |-> IF p.uid # -1 \/ p.gid # -1 THEN 504 ELSE 493, uid |-> IF p.uid # -1 THEN p.uid ELSE 0, gid |-> IF p.gid # -1 THEN p.gid ELSE 0]
Fault(c) == <<[t |-> "fault", c |-> c]>>
Exit(code, k, same, got) == <<[t |-> "exit", code |-> code, kind |-> k, same |-> same, got |-> got]>>
Algo(o, a) ==
  LET p == Opts(a.opts)
      hit(c, n) == a.fail.c = c /\ a.fail.n = n
      own == p.uid # -1 \/ p.gid # -1
      fs == hit("chmod", 1) /\ own
      touch(c, k, m) == <<[t |-> "touch", c |-> c, r |-> 0, kind |-> k, mine |-> m]>>
      clear == o = "sock"
      l0 == IF clear THEN touch("unlink", "sock", 0) ELSE <<>>
      left == IF clear THEN Exit(1, "none", 0, "") ELSE Exit(1, Kind(o), 1, "")
      dead == Exit(1, "sock", 0, "")
      l1 == l0 \o <<[t |-> "bind", r |-> 0, ours |-> 1]>>
      l2 == IF own THEN l1 \o touch("chmod", "sock", 1) ELSE l1
      l3 == IF own THEN l2 \o touch("chown", "sock", 1) ELSE l2
      l4 == IF ~p.n THEN l3
            ELSE IF hit("write", 1) THEN l3 \o Fault("write") \o <<[t |-> "rclose"]>>
            ELSE l3 \o <<Snap("ready", p, "N"), [t |-> "rclose"]>>
      got == IF p.n /\ ~hit("write", 1) THEN "N" ELSE ""
      nul == IF clear THEN 2 ELSE 1     \* the final unlink's number
  IN
  CASE p.res = "info" -> Exit(0, Kind(o), 1, "")
    [] p.res = "refuse" -> Exit(1, Kind(o), 1, "")
    [] ~MayClaim(p, o) -> Exit(1, Kind(o), 1, "")
    [] clear /\ hit("unlink", 1) -> Fault("unlink") \o Exit(1, "sock", 1, "")
    [] a.fail.c \in {"pipe", "calloc", "socket"} -> l0 \o Fault(a.fail.c) \o left
    [] hit("bind", 1) -> l0 \o Fault("bind") \o left
    [] a.race -> l0 \o <<[t |-> "race"], [t |-> "bind", r |-> -1, ours |-> 1]>> \o Exit(1, "file", 0, "")
    [] hit("listen", 1) -> l1 \o Fault("listen") \o dead
    [] hit("chmod", 1) /\ own -> l1 \o Fault("chmod") \o dead
    [] hit("chown", 1) /\ own -> l2 \o Fault("chown") \o dead
    [] OTHER -> LET l5 == l4 \o <<Snap("serve", p, ""), [t |-> "client", ok |-> 1]>> IN
                IF a.end = "kill" THEN l5 \o Exit(0, "sock", 0, got)
                ELSE IF hit("unlink", nul) THEN l5 \o Fault("unlink") \o Exit(0, "sock", 0, got)
                ELSE l5 \o touch("unlink", "sock", 1) \o Exit(0, "none", IF o = "none" THEN 1 ELSE 0, got)

Runs == {Cfg(l, NoFault, FALSE, "term") : l \in Lines}
        \cup {Cfg(FLine(n), [c |-> f[1], n |-> f[2]], FALSE, "term") : n \in FOpts, f \in Faults}
        \cup {Cfg(FLine(n), NoFault, r, e) : n \in FOpts, r \in BOOLEAN, e \in {"int", "kill", "term"}}
Put(x) == [op |-> "put", obj |-> x, opts |-> <<>>, fail |-> NoFault, race |-> FALSE, end |-> ""]

Init == obj = "none" /\ lab = Put("none") /\ ok = TRUE
Next == \E a \in Runs \cup {Put(x) : x \in Objects \ {"none"}} :
          /\ a.op = "put" => obj = "none"
          /\ LET r == Follow(Begin(obj, a), Algo(obj, a)) IN
             /\ obj' = IF a.op = "put" THEN a.obj ELSE r.s.after
             /\ ok' = (a.op = "put" \/ r.ok)
             /\ lab' = a
             /\ IF Emit THEN PrintT(<<"T", TLCFP(obj), TLCFP(obj'), ToJson(a)>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
View == obj
I16 == ok
=============================================================================
