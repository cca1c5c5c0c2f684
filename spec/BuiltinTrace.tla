------------------------------ MODULE BuiltinTrace ------------------------------
EXTENDS Builtin, SeatdObs, Json, IOUtils
CONSTANT Facets
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES i, k, S, bad
BStart(tr) == {Start0(tr.vtb, tr.fg, tr.imm, tr.ack)}
BNexts(s, a) == IF s.k.off THEN {s} ELSE Succs(s, a)

\* the result r of call c
AppOk(p, s, a, r) ==
  /\ r.cbs = s.cbs /\ r.acks = [j \in 1..Len(s.acks) |-> IF s.acks[j] = -1 THEN r.acks[j] ELSE s.acks[j]]
  /\ \A j \in 1..Len(s.acks) : s.acks[j] = -1 => r.acks[j] > 0
  /\ r.badcb = 0
  /\ CASE a.op = "dispatch" -> IF p.k.run /\ s.k.run THEN r.v >= 0 /\ (s.cbs # <<>> => r.v > 0)
                               ELSE (r.v = -1 /\ r.err # 0) \/ (r.v > 0 /\ (s.cbs # <<>> \/ p.post = 0))   \* the rest of what it sent comes first
       [] a.op = "close_seat" -> p.k.run => r.v = 0
       [] a.op = "open_seat" -> IF s.ret.v = 0 THEN r.v = 0 /\ r.name = "seat0" ELSE r.v = -1 /\ r.err # 0
       [] OTHER -> IF s.ret.v = -1 THEN r.v = -1 /\ r.err # 0 /\ (s.ret.err > 0 /\ a.n >= 0 => r.err = s.ret.err)
                   ELSE /\ r.v = s.ret.v
                        /\ a.op = "open_device" => r.o = s.ret.o /\ r.clo = 1
Uses(p, a) == CASE a.op = "open_seat" -> p.ap = "none"
                [] a.op \in Requests \cup {"dispatch", "close_seat"} -> p.ap = "open"
                [] OTHER -> FALSE

BMatch(f, p, s, a, o) ==
  IF s.k.off THEN TRUE
  ELSE CASE f = "app" -> Uses(p, a) => AppOk(p, s, a, o.app)
         [] f = "proc" -> o.alive = IF s.k.run THEN "idle" ELSE s.end
         [] f = "sock" -> /\ o.socks = 0                          \* the server has no socket but its own
                          /\ Uses(p, a) => o.app.fds \in 0..(IF s.ap = "open" THEN 1 ELSE 0)
         [] f = "order" -> s.wild \/ Match(f, p.k, s.k, o)       \* what a killed server left may still be there
         [] OTHER -> Match(f, p.k, s.k, o)
BShow(s) == [ap |-> s.ap, evq |-> s.evq, end |-> s.end, ret |-> s.ret, cbs |-> s.cbs, acks |-> s.acks, fg |-> s.k.fg, vt |-> s.k.vt, ofd |-> s.k.ofd, mast |-> s.k.mast,
             ph |-> [c \in 1..Len(s.k.cl) |-> s.k.cl[c].ph], devs |-> [c \in 1..Len(s.k.cl) |-> s.k.cl[c].devs]]
INSTANCE UnitTrace WITH Start <- BStart, Nexts <- BNexts, Match <- BMatch, Show <- BShow
=============================================================================
