-------------------------------- MODULE SeatdObs --------------------------------
(***************************************************************************)
(* What a recorded step of a real server (its outside world as seen by the *)
(* shim) must look like to agree with a step pre -> t of Seatd, by aspect. *)
(***************************************************************************)
EXTENDS Seatd

EventKinds == {"enable", "disable"}
Kinds(q) == [j \in 1..Len(q) |-> q[j].k]
IsEvent(m) == m.k \in EventKinds
IsResp(m) == m.k \notin EventKinds
IsErr(m) == m.k = "error"
IsDev(m) == m.k = "dev"
IsOpened(m) == m.k = "opened"
Col(q, F(_)) == [j \in 1..Len(q) |-> F(q[j])]

Same(t, o, Sel(_), Get(_)) ==
  \A c \in 1..Len(t.cl) :
    LET x == SelectSeq(t.cl[c].rx, Sel)  y == SelectSeq(o.m[c], Sel) IN
    Len(x) = Len(y) /\ \A j \in 1..Len(x) : Get(x[j]) = Get(y[j])

All(m) == TRUE
GetK(m) == m.k
GetE(m) == m.e
GetId(m) == m.id
GetO(m) == m.o
GetN(m) == m.n

Alive(t) == t.run

\* the ordered log of a step: device access is gone before anybody is told about it
Ordered(pre, t, o) ==
  LET ev == o.ev
      own(x) == IF x \in 1..Len(t.ofd) THEN t.ofd[x].own ELSE 0
      known == 1..Len(t.ofd)
      rev0 == {x \in 1..Len(pre.ofd) : pre.ofd[x].rev}
      mst0 == {Master(pre, p) : p \in DOMAIN pre.mast} \ {0}
      RECURSIVE Go(_, _, _)
      \* evdev files that are still usable, files that are DRM master
      Go(j, use, mst) ==
        IF j > Len(ev) THEN TRUE
        ELSE LET e == ev[j]
                 ok == CASE e.t = "msg" /\ e.s = "disable" -> \A x \in use \cup mst : own(x) # e.a
                         [] e.t = "msg" /\ e.s = "enable" -> \A x \in use \cup mst : own(x) = e.a
                         [] e.t = "reldisp" /\ e.b = 1 /\ e.s = "0" -> use \cup mst = {}
                         [] OTHER -> TRUE
                 use1 == CASE e.t = "open" /\ e.a \in known /\ t.ofd[e.a].k = "evdev" -> use \cup {e.a}
                           [] e.t = "revoke" /\ e.b = 0 -> use \ {e.a}
                           [] e.t = "closeofd" /\ e.a \in known /\ t.ofd[e.a].cli = 0 /\ SrvHeld(t, e.a) = 0 -> use \ {e.a}
                           [] OTHER -> use
                 mst1 == CASE e.t = "setm" /\ e.b = 0 /\ e.a \in known -> mst \cup {e.a}
                           [] e.t = "dropm" /\ e.b = 0 -> mst \ {e.a}
                           [] e.t = "closeofd" /\ e.a \in known /\ t.ofd[e.a].cli = 0 /\ SrvHeld(t, e.a) = 0 -> mst \ {e.a}
                           [] OTHER -> mst
             IN ok /\ Go(j + 1, use1, mst1)
      \* files nobody can use any more do not count
      usable == {x \in 1..Len(pre.ofd) : /\ pre.ofd[x].k = "evdev" /\ ~pre.ofd[x].rev
                                         /\ pre.ofd[x].cli > 0}
      slow == \E c \in 1..Len(t.cl) : t.cl[c].bud >= 0 \/ (c <= Len(pre.cl) /\ pre.cl[c].bud >= 0)
  IN slow \/ (\E x \in 1..Len(ev) : ev[x].t = "open" /\ ev[x].a \notin known)
          \/ Go(1, usable, mst0)

\* while a client stays enabled nothing touches the devices it keeps open
Kept(pre, t, o) ==
  \A c \in 1..Len(pre.cl) :
    (pre.cl[c].ph = "active" /\ t.cl[c].ph = "active"
       /\ \A m \in Range(t.cl[c].rx) : m.k \notin {"enable", "disable", "switched"}) =>
      \A d \in Range(pre.cl[c].devs) :
        (\E d2 \in Range(t.cl[c].devs) : d2.o = d.o) =>
          \A e \in Range(o.ev) : ~(e.t \in {"revoke", "dropm"} /\ e.a = d.o /\ e.b = 0)

VTTouch == {"setmode", "kd", "kb", "reldisp", "activate"}

\* how many descriptors the server holds on open file x
Fds(t, x) == SrvHeld(t, x)
Count(q, x) == Cardinality({j \in 1..Len(q) : q[j] = x})

Match(f, pre, t, o) ==
  CASE f = "seq" -> Same(t, o, All, GetK)
    [] f = "event" -> Same(t, o, IsEvent, GetK)
    [] f = "resp" -> Same(t, o, IsResp, GetK)
    [] f = "err" -> Same(t, o, IsErr, GetE)
    [] f = "devid" -> Same(t, o, IsDev, GetId)
    [] f = "devfd" -> Same(t, o, IsDev, GetO) /\ \A c \in 1..Len(t.cl) : (t.cl[c].ph # "gone" /\ t.cl[c].out = <<>>) => o.xfd[c] = 0
    [] f = "name" -> Same(t, o, IsOpened, GetN)
    [] f = "eof" -> \A c \in 1..Len(t.cl) : o.eof[c] # 2 => ((o.eof[c] = 1) <=> (t.cl[c].ph = "gone"))
    [] f = "conns" -> Alive(t) => Range(o.conns) = {c \in 1..Len(t.cl) : t.cl[c].ph # "gone"}
    [] f = "fg" -> t.fg = o.fg
    [] f = "nv" -> \A v \in 1..NVT : t.vt[v].nv = o.vt[v][4]
    [] f = "sig" -> t.rel = (o.rel = 1) /\ t.acq = (o.acq = 1)
    [] f = "vt" -> /\ \A v \in 1..NVT : t.vt[v].mode = o.vt[v][1] /\ t.vt[v].kd = o.vt[v][2] /\ t.vt[v].kb = o.vt[v][3]
                   /\ o.vtx = 0
    [] f = "novt" -> t.vtb \/ \A e \in Range(o.ev) : e.t \notin VTTouch
    [] f = "opens" -> /\ Len(t.ofd) = Len(o.dev)
                      /\ \A x \in 1..Len(t.ofd) : t.ofd[x].p = o.dev[x][1] /\ o.dev[x][6] = 1
    [] f = "rev" -> \A x \in 1..Min(Len(t.ofd), Len(o.dev)) :
                      (t.ofd[x].k = "evdev" /\ (o.dev[x][4] = 1 \/ o.dev[x][5] > 0)) => t.ofd[x].rev = (o.dev[x][2] = 1)
    [] f = "mast" -> \A x \in 1..Min(Len(t.ofd), Len(o.dev)) : (Master(t, t.ofd[x].p) = x) = (o.dev[x][3] = 1)
    [] f = "held" -> \A x \in 1..Min(Len(t.ofd), Len(o.dev)) :
                       Alive(t) => /\ (SrvHeld(t, x) > 0) = (o.dev[x][4] = 1)
                                   /\ t.ofd[x].cli = o.dev[x][5]
    [] f = "fds" -> Alive(t) =>
                      /\ o.leak = 0 /\ o.base = 1
                      /\ o.alien <= SumSeq([c \in 1..Len(t.cl) |-> t.cl[c].fdin])
                      /\ \A x \in 1..Len(t.ofd) : Count(o.ofds, x) = Fds(t, x)
                      /\ \A x \in Range(o.ofds) : x \in 1..Len(t.ofd)
                      /\ \A e \in Range(o.ev) : e.t # "badclose"
    [] f = "alive" -> IF t.run THEN o.alive = "idle" /\ o.sock = 1 ELSE o.alive \in (IF t.failed THEN {"exit1", "exit2", "exit255"} ELSE {"exit0"}) /\ o.sock = 0
    [] f = "order" -> Ordered(pre, t, o)
    [] f = "keep" -> Kept(pre, t, o)
=============================================================================
