------------------------------- MODULE SeatdCanon -------------------------------
EXTENDS Seatd

(***************************************************************************)
(* States that differ only in the numbering of connections, open files and *)
(* (without VTs) sessions behave alike: Canon renumbers what is alive and  *)
(* forgets the rest.  The state space under this view is finite although   *)
(* connections come and go without end.                                    *)
(***************************************************************************)
Conns(t) == SelectSeq([i \in 1..Len(t.cl) |-> i], LAMBDA i : t.cl[i].ph # "gone")
Files(t) == SelectSeq([o \in 1..Len(t.ofd) |-> o], LAMBDA o : SrvHeld(t, o) > 0 \/ t.ofd[o].cli > 0)
Pos(q, x) == IF \E i \in 1..Len(q) : q[i] = x THEN CHOOSE i \in 1..Len(q) : q[i] = x ELSE 0
Canon(t) ==
  LET C == Conns(t)  F == Files(t)
      ses == {t.cl[i].sess : i \in Range(C)} \ {-1}
      srank(x) == IF t.vtb \/ x = -1 THEN x ELSE Cardinality({y \in ses : y <= x})
      msg(m) == IF m.k = "dev" THEN [m EXCEPT !.o = Pos(F, @)] ELSE m
      cli(i) == LET c == t.cl[i] IN
        [c EXCEPT !.sess = srank(@), !.rx = <<>>, !.eofd = FALSE,
                  !.devs = [j \in 1..Len(@) |-> [@[j] EXCEPT !.o = Pos(F, @)]],
                  !.fdq = [j \in 1..Len(@) |-> Pos(F, @[j])],
                  !.out = [j \in 1..Len(@) |-> [@[j] EXCEPT !.m = msg(@)]]]
  IN [t EXCEPT !.cl = [i \in 1..Len(C) |-> cli(C[i])],
               !.seat = [i \in 1..Len(@) |-> Pos(C, @[i])],
               !.act = Pos(C, @), !.nxt = Pos(C, @), !.cnt = 0,
               !.kill = {Pos(C, i) : i \in @},
               !.ofd = [i \in 1..Len(F) |-> [t.ofd[F[i]] EXCEPT !.own = Pos(C, @)]],
               !.mast = [p \in DOMAIN @ |-> Pos(F, @[p])]]
=============================================================================
