---------------------------------- MODULE Seatd ----------------------------------
(***************************************************************************)
(* The seatd server together with the part of the Linux kernel it drives   *)
(* (virtual terminals, DRM master, evdev revocation, sockets).             *)
(*                                                                         *)
(* Functional style: one state record; Env(s, a) is what the outside world *)
(* does (a client connects, sends bytes, dies, the user presses            *)
(* Ctrl-Alt-Fn, a signal is delivered ...); Settle(s) is the set of states *)
(* the server may reach by working off everything that is pending, one     *)
(* event at a time and in any order.  A step is a list of environment      *)
(* actions followed by Settle.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, FsData

BUFSZ == 256          \* connection buffer
MAXDEV == 128         \* devices per client
MAXPATH == 250        \* longest path including NUL that fits a message
MAXFDIN == 64
NVT == 4              \* VTs modelled; 5..63 exist but are never used by labels
TopVT == 63

EPERM == 1  ENOENT == 2  EBADF == 9  ENOMEM == 12  EBUSY == 16  EINVAL == 22  EMFILE == 24

Range(f) == {f[x] : x \in DOMAIN f}
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
SelectIdx(q, P(_)) == {i \in 1..Len(q) : P(q[i])}
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : x >= y
RemoveIdx(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Without(q, x) == SelectSeq(q, LAMBDA y : y # x)
RECURSIVE Rev(_)
Rev(q) == IF q = <<>> THEN <<>> ELSE Append(Rev(Tail(q)), Head(q))

FsFn == [b \in {FsTable[i].b : i \in DOMAIN FsTable} |->
            LET i == CHOOSE i \in DOMAIN FsTable : FsTable[i].b = b IN FsTable[i]]
NoPath == [b |-> <<>>, p |-> "", k |-> "none", e |-> ENOENT, oe |-> 0]
FsLookup(b) == IF b \in DOMAIN FsFn THEN FsFn[b] ELSE NoPath

----------------------------------------------------------------------------
(* State *)

NewClient == [ph |-> "idle", sess |-> -1, devs |-> <<>>, inb |-> <<>>, sk |-> <<>>,
              hup |-> FALSE, eof |-> FALSE, nfd |-> 0, fdin |-> 0,
              out |-> <<>>, off |-> 0, fdq |-> <<>>, bud |-> -1, wr |-> FALSE,
              rx |-> <<>>, eofd |-> FALSE]

\* phases: idle (no seat yet), new, active, pend (disable sent), dis (disabled),
\*         closed (left its seat), gone (connection over)
InSeat(cl) == cl.ph \in {"new", "active", "pend", "dis"}

VTInit == [mode |-> 0, kd |-> 0, kb |-> 1, nv |-> -1]   \* auto, text, keyboard on

Init0(vtb, fg, imm) ==
  [vtb |-> vtb, run |-> TRUE, cl |-> <<>>, seat |-> <<>>, act |-> 0, nxt |-> 0,
   curvt |-> 0, cnt |-> 1, fg |-> fg, vt |-> TLCEval([v \in 1..NVT |-> VTInit]),
   rel |-> FALSE, acq |-> FALSE,       \* signals raised by the kernel, not yet delivered
   rrel |-> FALSE, racq |-> FALSE, rterm |-> FALSE,  \* delivered, not yet handled
   imm |-> imm, ofd |-> <<>>, mast |-> <<>>, ext |-> {},
   kill |-> {}, fopen |-> 0, fdup |-> 0, falloc |-> 0, ftty |-> FALSE, failed |-> FALSE,
   off |-> FALSE]      \* went to a VT this model does not follow

\* mast: node path -> open file that is DRM master (absent/0: nobody)
Master(s, p) == IF p \in DOMAIN s.mast THEN s.mast[p] ELSE 0
SetMast(s, p, o) == [s EXCEPT !.mast = (p :> o) @@ s.mast]

----------------------------------------------------------------------------
(* Kernel: VT layer *)

GetVT(s, v) == IF v \in 1..NVT THEN s.vt[v] ELSE VTInit

RaiseRel(s) == IF s.imm THEN [s EXCEPT !.rrel = TRUE] ELSE [s EXCEPT !.rel = TRUE]
RaiseAcq(s) == IF s.imm THEN [s EXCEPT !.racq = TRUE] ELSE [s EXCEPT !.acq = TRUE]

CompleteSwitch(s, v) ==
  LET s1 == [s EXCEPT !.fg = v] IN
  IF GetVT(s, v).mode = 1 THEN RaiseAcq(s1) ELSE s1

ChangeConsole(s, v) ==
  IF v = s.fg THEN s
  ELSE IF v > NVT THEN [s EXCEPT !.off = TRUE]
  ELSE IF s.vt[s.fg].mode = 1 THEN RaiseRel([s EXCEPT !.vt[s.fg].nv = v])
  ELSE IF s.vt[s.fg].kd = 1 THEN s
  ELSE CompleteSwitch(s, v)

\* VT_RELDISP on VT v; <<state, succeeded>>
RelDisp(s, v, arg) ==
  IF s.vt[v].mode # 1 THEN <<s, FALSE>>
  ELSE IF s.vt[v].nv < 0 THEN <<s, arg = 2>>
  ELSE <<CompleteSwitch([s EXCEPT !.vt[v].nv = -1], s.vt[v].nv), TRUE>>

\* what the server does to a VT; it cannot while no terminal can be opened (ftty)
SetProc(s, v) == IF s.ftty THEN s ELSE [s EXCEPT !.vt[v].mode = 1, !.vt[v].nv = -1]
VtOpen(s, v) == IF s.ftty THEN s ELSE [SetProc(s, v) EXCEPT !.vt[v].kb = 0, !.vt[v].kd = 1]
VtClose(s, v) == IF s.ftty THEN s ELSE [SetProc(s, v) EXCEPT !.vt[v].kb = 1, !.vt[v].kd = 0]
LookVT(s) == IF s.ftty THEN s ELSE [s EXCEPT !.curvt = s.fg]
Answer(s, v, arg) == IF s.ftty THEN <<s, FALSE>> ELSE RelDisp(s, v, arg)

----------------------------------------------------------------------------
(* Kernel: devices *)

\* references the server holds on open file o
SrvHeld(s, o) ==
  LET f(c) == Cardinality(SelectIdx(s.cl[c].devs, LAMBDA d : d.o = o))
              + Cardinality(SelectIdx(s.cl[c].fdq, LAMBDA x : x = o))
  IN SumSeq([c \in 1..Len(s.cl) |-> f(c)])

\* the last reference is gone: mastership ends with the open file
Reap(s, o) ==
  IF SrvHeld(s, o) = 0 /\ s.ofd[o].cli = 0 /\ Master(s, s.ofd[o].p) = o
  THEN SetMast(s, s.ofd[o].p, 0) ELSE s
RECURSIVE ReapAll(_, _)
ReapAll(s, os) == IF os = <<>> THEN s ELSE ReapAll(Reap(s, Head(os)), Tail(os))

TrySetMaster(s, o) ==
  LET p == s.ofd[o].p IN
  IF s.ofd[o].k = "card" /\ Master(s, p) = 0 /\ p \notin s.ext THEN SetMast(s, p, o) ELSE s

----------------------------------------------------------------------------
(* Connection output: chunks [m, n, last] with a byte offset into the first *)

OutSize(c) == SumSeq([i \in 1..Len(c.out) |-> c.out[i].n]) - c.off

\* move up to n bytes from the out buffer to the peer
RECURSIVE Deliver(_, _)
Deliver(c, n) ==
  IF n = 0 \/ c.out = <<>> THEN c
  ELSE LET h == Head(c.out)  left == h.n - c.off IN
       IF n < left THEN [c EXCEPT !.off = @ + n]
       ELSE Deliver([c EXCEPT !.out = Tail(@), !.off = 0,
                              !.rx = IF h.last THEN Append(@, h.m) ELSE @], n - left)

RECURSIVE CliHold(_, _)
CliHold(s, fds) == IF fds = <<>> THEN s
                   ELSE CliHold([s EXCEPT !.ofd[Head(fds)].cli = @ + 1], Tail(fds))

\* <<state, everything flushed>>
Flush(s, i) ==
  LET c == s.cl[i]
      size == OutSize(c)
      n == IF c.bud < 0 THEN size ELSE Min(size, c.bud) IN
  IF size = 0 THEN <<s, TRUE>>
  ELSE IF n = 0 \/ i \in s.kill \/ c.hup THEN <<s, FALSE>>
  ELSE LET c1 == Deliver(c, n)
           c2 == [c1 EXCEPT !.fdq = <<>>, !.bud = IF @ < 0 THEN @ ELSE @ - n]
       IN <<CliHold([s EXCEPT !.cl[i] = c2], c.fdq), n = size>>

ClientFlush(s, i) ==
  LET r == Flush(s, i) IN IF r[2] THEN r[1] ELSE [r[1] EXCEPT !.cl[i].wr = TRUE]

\* put a message as its chunks; <<state, ok>>
RECURSIVE Put(_, _, _, _)
Put(s, i, m, ns) ==
  IF ns = <<>> THEN <<s, TRUE>>
  ELSE LET n == Head(ns)
           r == IF OutSize(s.cl[i]) + n > BUFSZ THEN Flush(s, i) ELSE <<s, TRUE>> IN
       IF ~r[2] THEN <<r[1], FALSE>>
       ELSE Put([r[1] EXCEPT !.cl[i].out = Append(@, [m |-> m, n |-> n, last |-> Len(ns) = 1])],
                i, m, Tail(ns))

\* an event raised by somebody else's action: queued, or the client is dropped
SendEvent(s, i, k) ==
  LET r == Put(s, i, [k |-> k], <<4>>) IN
  IF r[2] THEN ClientFlush(r[1], i) ELSE [r[1] EXCEPT !.kill = @ \cup {i}]

----------------------------------------------------------------------------
(* Devices of a client *)

Deactivate(s, i, j) ==
  LET d == s.cl[i].devs[j] IN
  IF ~d.act THEN s
  ELSE CASE d.k = "evdev" -> [s EXCEPT !.ofd[d.o].rev = TRUE, !.cl[i].devs[j].act = FALSE]
         [] d.k = "card" /\ Master(s, d.p) = d.o ->
              [SetMast(s, d.p, 0) EXCEPT !.cl[i].devs[j].act = FALSE]
         [] OTHER -> [s EXCEPT !.cl[i].devs[j].act = FALSE]

RECURSIVE DeactivateAll(_, _, _)
DeactivateAll(s, i, j) ==
  IF j > Len(s.cl[i].devs) THEN s ELSE DeactivateAll(Deactivate(s, i, j), i, j + 1)

Reactivate(s, i, j) ==
  LET d == s.cl[i].devs[j] IN
  IF d.act \/ d.k = "evdev" THEN s
  ELSE [TrySetMaster(s, d.o) EXCEPT !.cl[i].devs[j].act = TRUE]
RECURSIVE ReactivateAll(_, _, _)
ReactivateAll(s, i, j) ==
  IF j > Len(s.cl[i].devs) THEN s ELSE ReactivateAll(Reactivate(s, i, j), i, j + 1)

\* drop the device entry at position j whatever its reference count
DropDev(s, i, j) ==
  LET d == s.cl[i].devs[j]
      s1 == Deactivate(s, i, j)
      s2 == [s1 EXCEPT !.cl[i].devs = RemoveIdx(@, j)]
  IN Reap(s2, d.o)
RECURSIVE DropAllDevs(_, _)
DropAllDevs(s, i) == IF s.cl[i].devs = <<>> THEN s ELSE DropAllDevs(DropDev(s, i, 1), i)

----------------------------------------------------------------------------
(* The seat *)

OpenClient(s, i) ==
  IF s.cl[i].ph \notin {"new", "dis"} \/ s.act # 0 \/ (s.vtb /\ s.ftty) THEN s
  ELSE LET s1 == IF s.vtb THEN VtOpen(s, s.cl[i].sess) ELSE s
           s2 == ReactivateAll(s1, i, 1)
       IN SendEvent([s2 EXCEPT !.cl[i].ph = "active", !.act = i], i, "enable")

Activate(s) ==
  IF s.act # 0 THEN s
  ELSE IF s.nxt # 0 THEN OpenClient([s EXCEPT !.nxt = 0], s.nxt)
  ELSE IF s.seat = <<>> THEN s
  ELSE IF s.vtb
       THEN LET S == SelectIdx(s.seat, LAMBDA c : s.cl[c].sess = s.curvt) IN
            IF s.curvt = -1 \/ S = {} THEN s ELSE OpenClient(s, s.seat[MinS(S)])
  ELSE OpenClient(s, s.seat[1])

DisableClient(s, i) ==
  IF s.cl[i].ph # "active" THEN s
  ELSE SendEvent([DeactivateAll(s, i, 1) EXCEPT !.cl[i].ph = "pend"], i, "disable")

RemoveClient(s, i) ==
  LET was == s.act = i
      sess == s.cl[i].sess
      s1 == [s EXCEPT !.nxt = IF @ = i THEN 0 ELSE @, !.seat = Without(@, i)]
      s2 == DropAllDevs(s1, i)
      s3 == IF was THEN Activate([s2 EXCEPT !.act = 0]) ELSE s2
      s4 == IF s.vtb /\ ~(s3.act # 0 /\ s3.cl[s3.act].sess = sess)
            THEN VtClose(s3, sess) ELSE s3
  IN [s4 EXCEPT !.cl[i].ph = "closed"]

\* the server ends connection i
Destroy(s, i) ==
  IF s.cl[i].ph = "gone" THEN s
  ELSE LET s1 == IF InSeat(s.cl[i]) THEN RemoveClient(s, i) ELSE s
           fds == s1.cl[i].fdq
           s2 == [s1 EXCEPT !.cl[i].ph = "gone", !.cl[i].eofd = TRUE, !.cl[i].out = <<>>,
                            !.cl[i].off = 0, !.cl[i].fdq = <<>>, !.cl[i].inb = <<>>,
                            !.cl[i].sk = <<>>, !.cl[i].fdin = 0, !.cl[i].nfd = 0,
                            !.cl[i].wr = FALSE, !.kill = @ \ {i}]
       IN ReapAll(s2, fds)

HandleAcq(s) ==
  IF ~s.vtb THEN s
  ELSE LET s1 == LookVT(s)
           s2 == Answer(s1, s.fg, 2)[1]
       IN IF s2.act = 0 THEN Activate(s2) ELSE s2

HandleRel(s) ==
  IF ~s.vtb THEN s
  ELSE LET v == s.fg
           s1 == LookVT(s)
           s2 == IF s1.act # 0 THEN DisableClient(s1, s1.act) ELSE s1
           r == Answer(s2, v, 1)
       IN IF r[2] THEN [r[1] EXCEPT !.curvt = -1] ELSE r[1]

----------------------------------------------------------------------------
(* Requests; each handler gives <<state, keep connection>> *)

ReplyErr(s, i, e) == Put(s, i, [k |-> "error", e |-> e], <<4, 4>>)
Reply(s, i, k) == Put(s, i, [k |-> k], <<4>>)
Bad(s) == <<s, FALSE>>

HOpenSeat(s, i) ==
  LET c == s.cl[i]
      upd == IF s.vtb THEN LookVT(s) ELSE s
      \* who may be let in
      refuse == \/ c.ph # "idle"
                \/ s.vtb /\ s.act # 0 /\ s.cl[s.act].ph # "pend"
                \/ s.vtb /\ s.ftty        \* there is no telling its VT
      dup == s.vtb /\ \E k \in Range(s.seat) : s.cl[k].sess = s.fg
  IN IF refuse THEN Bad(s)
     ELSE IF dup THEN Bad(upd)
     ELSE LET sess == IF s.vtb THEN s.fg ELSE s.cnt
              s1 == [upd EXCEPT !.cl[i].ph = "new", !.cl[i].sess = sess,
                                !.cnt = IF s.vtb THEN @ ELSE @ + 1,
                                !.seat = <<i>> \o @]
              s2 == IF s.vtb THEN SetProc(s1, sess) ELSE s1
              r == Put(s2, i, [k |-> "opened", n |-> "seat0"], <<4, 2, 6>>)
          IN IF ~r[2] THEN r ELSE <<OpenClient(r[1], i), TRUE>>

HCloseSeat(s, i) ==
  IF ~InSeat(s.cl[i]) THEN Bad(s) ELSE Reply(RemoveClient(s, i), i, "closed")

HOpenDevice(s, i, bytes) ==
  LET c == s.cl[i]
      f == FsLookup(bytes)
      same == SelectIdx(c.devs, LAMBDA d : d.p = f.p /\ d.act)
      id == IF c.devs = <<>> THEN 1 ELSE 1 + MaxS({d.id : d \in Range(c.devs)})
      o == Len(s.ofd) + 1
      give(s1, oo, hid) ==         \* hand out a duplicate of the open file
        IF s1.fdup # 0 THEN
          LET j == CHOOSE j \in 1..Len(s1.cl[i].devs) : s1.cl[i].devs[j].id = hid
              s2 == IF s1.cl[i].devs[j].ref > 1
                    THEN [s1 EXCEPT !.cl[i].devs[j].ref = @ - 1, !.fdup = 0]
                    ELSE DropDev([s1 EXCEPT !.fdup = 0], i, j)
          IN ReplyErr(s2, i, s1.fdup)
        ELSE IF Len(s1.cl[i].fdq) >= MAXFDIN THEN Bad(s1)
        ELSE Put([s1 EXCEPT !.cl[i].fdq = Append(@, oo)], i, [k |-> "dev", id |-> hid, o |-> oo], <<4, 4>>)
  IN IF ~InSeat(c) THEN Bad(s)
     ELSE IF c.ph # "active" THEN ReplyErr(s, i, EPERM)
     ELSE IF f.e # 0 THEN ReplyErr(s, i, f.e)
     ELSE IF f.k \notin {"evdev", "card", "drm"} THEN ReplyErr(s, i, ENOENT)
     ELSE IF same # {} THEN
       LET j == MinS(same) IN give([s EXCEPT !.cl[i].devs[j].ref = @ + 1], c.devs[j].o, c.devs[j].id)
     ELSE IF Len(c.devs) >= MAXDEV THEN ReplyErr(s, i, EMFILE)
     ELSE IF s.falloc = 1 THEN ReplyErr(s, i, ENOMEM)
     ELSE IF s.fopen # 0 THEN ReplyErr([s EXCEPT !.fopen = 0], i, s.fopen)
     ELSE IF f.oe # 0 THEN ReplyErr(s, i, f.oe)
     ELSE LET s1 == [s EXCEPT !.ofd = Append(@, [p |-> f.p, k |-> f.k, rev |-> FALSE, cli |-> 0, own |-> i]),
                              !.cl[i].devs = <<[id |-> id, p |-> f.p, k |-> f.k, o |-> o,
                                                ref |-> 1, act |-> TRUE]>> \o @]
          IN IF s.falloc = 2 THEN ReplyErr(DropDev(TrySetMaster(s1, o), i, 1), i, ENOMEM)
             ELSE give(TrySetMaster(s1, o), o, id)

HCloseDevice(s, i, id) ==
  LET S == SelectIdx(s.cl[i].devs, LAMBDA d : d.id = id) IN
  IF ~InSeat(s.cl[i]) THEN Bad(s)
  ELSE IF S = {} THEN ReplyErr(s, i, EBADF)
  ELSE LET j == MinS(S)
           s1 == IF s.cl[i].devs[j].ref > 1 THEN [s EXCEPT !.cl[i].devs[j].ref = @ - 1]
                 ELSE DropDev(s, i, j)
       IN Reply(s1, i, "devclosed")

HSwitch(s, i, n) ==
  LET c == s.cl[i]
      T == {k \in Range(s.seat) : s.cl[k].sess = n} IN
  IF ~InSeat(c) THEN Bad(s)
  ELSE IF c.ph # "active" THEN ReplyErr(s, i, EPERM)
  ELSE IF n <= 0 THEN ReplyErr(s, i, EINVAL)
  ELSE IF n = c.sess \/ s.nxt # 0 THEN Reply(s, i, "switched")
  ELSE IF s.vtb /\ s.ftty THEN ReplyErr(s, i, EMFILE)
  ELSE IF s.vtb THEN
    LET s1 == SetProc(s, s.curvt)
        s2 == IF n > TopVT THEN s1 ELSE ChangeConsole(s1, n)
    IN Reply(s2, i, "switched")
  ELSE IF T = {} THEN ReplyErr(s, i, EINVAL)
  ELSE Reply(DisableClient([s EXCEPT !.nxt = CHOOSE k \in T : TRUE], i), i, "switched")

HAck(s, i) ==
  IF ~InSeat(s.cl[i]) THEN Bad(s)
  ELSE IF s.cl[i].ph # "pend" THEN ReplyErr(s, i, EBUSY)
  ELSE LET s1 == [s EXCEPT !.cl[i].ph = "dis"]
           s2 == IF s.act = i THEN Activate([s1 EXCEPT !.act = 0]) ELSE s1
       IN Reply(s2, i, "disabled")

U16(b, k) == b[k] + 256 * b[k + 1]
I32(b, k) == b[k] + 256 * b[k + 1] + 65536 * b[k + 2]
             + 16777216 * (IF b[k + 3] >= 128 THEN b[k + 3] - 256 ELSE b[k + 3])

Handle(s, i, op, p) ==     \* p: payload bytes
  CASE op = 1 -> IF p # <<>> THEN Bad(s) ELSE HOpenSeat(s, i)
    [] op = 2 -> IF p # <<>> THEN Bad(s) ELSE HCloseSeat(s, i)
    [] op = 3 ->
         IF Len(p) < 2 THEN Bad(s)
         ELSE LET n == U16(p, 1) IN
           IF n # Len(p) - 2 \/ n > MAXPATH \/ n = 0 THEN Bad(s)
           ELSE LET z == SelectIdx(SubSeq(p, 3, Len(p)), LAMBDA x : x = 0) IN
             IF z = {} \/ MinS(z) # n THEN Bad(s) ELSE HOpenDevice(s, i, SubSeq(p, 3, Len(p) - 1))
    [] op = 4 -> IF Len(p) # 4 THEN Bad(s) ELSE HCloseDevice(s, i, I32(p, 1))
    [] op = 5 -> IF p # <<>> THEN Bad(s) ELSE HAck(s, i)
    [] op = 6 -> IF Len(p) # 4 THEN Bad(s) ELSE HSwitch(s, i, I32(p, 1))
    [] op = 7 -> IF p # <<>> THEN Bad(s) ELSE Reply(s, i, "pong")
    [] OTHER -> Bad(s)

\* work off complete messages in the input buffer
RECURSIVE Parse(_, _)
Parse(s, i) ==
  LET b == s.cl[i].inb IN
  IF Len(b) < 4 \/ Len(b) - 4 < U16(b, 3) THEN s
  ELSE LET n == U16(b, 3)
           s1 == [s EXCEPT !.cl[i].inb = SubSeq(b, 5 + n, Len(b))]
           r == Handle(s1, i, U16(b, 1), SubSeq(b, 5, 4 + n))
       IN IF ~r[2] \/ i \in r[1].kill THEN Destroy(r[1], i) ELSE Parse(ClientFlush(r[1], i), i)

\* one read from the socket of connection i
Read(s, i) ==
  LET c == s.cl[i]
      n == Min(BUFSZ - Len(c.inb), Len(c.sk)) IN
  IF Len(c.inb) >= BUFSZ THEN Destroy(s, i)
  ELSE IF c.sk = <<>> THEN (IF c.eof THEN Destroy(s, i) ELSE s)
  ELSE IF c.fdin + c.nfd > MAXFDIN THEN Destroy(s, i)
  ELSE Parse([s EXCEPT !.cl[i].inb = @ \o SubSeq(c.sk, 1, n),
                       !.cl[i].sk = SubSeq(c.sk, n + 1, Len(c.sk)),
                       !.cl[i].fdin = @ + c.nfd, !.cl[i].nfd = 0], i)

----------------------------------------------------------------------------
(* Shutdown *)

RECURSIVE DestroyList(_, _)
DestroyList(s, q) == IF q = <<>> THEN s ELSE DestroyList(Destroy(s, Head(q)), Tail(q))
RECURSIVE DestroySeat(_)
DestroySeat(s) == IF s.seat = <<>> THEN s ELSE DestroySeat(Destroy(s, s.seat[1]))
Shutdown(s) ==
  LET idle == SelectSeq([i \in 1..Len(s.cl) |-> i], LAMBDA i : s.cl[i].ph \in {"idle", "closed"})
  IN [DestroySeat(DestroyList(s, idle)) EXCEPT !.run = FALSE, !.rterm = FALSE]

----------------------------------------------------------------------------
(* Pending work and the event loop *)

Readable(c) == c.ph # "gone" /\ (c.sk # <<>> \/ c.eof)
Writable(c) == c.ph # "gone" /\ c.wr /\ c.bud # 0

Work(s) ==
  IF ~s.run THEN {}
  ELSE (IF s.rrel THEN {<<"rel", 0>>} ELSE {}) \cup (IF s.racq THEN {<<"acq", 0>>} ELSE {})
       \cup (IF s.rterm THEN {<<"term", 0>>} ELSE {})
       \cup {<<"cl", i>> : i \in {i \in 1..Len(s.cl) :
                 s.cl[i].ph # "gone" /\ (Readable(s.cl[i]) \/ Writable(s.cl[i]) \/ s.cl[i].hup)}}
       \cup {<<"kill", i>> : i \in s.kill}
       \cup {<<"last", i>> : i \in {i \in s.kill : s.cl[i].sk # <<>> /\ ~s.cl[i].hup}}

Process(s, w) ==
  CASE w[1] = "rel" -> HandleRel([s EXCEPT !.rrel = FALSE])
    [] w[1] = "acq" -> HandleAcq([s EXCEPT !.racq = FALSE])
    [] w[1] = "term" -> Shutdown(s)
    [] w[1] = "kill" -> Destroy(s, w[2])
    [] w[1] = "last" -> Read(s, w[2])    \* its requests had been noticed before
    [] w[1] = "cl" ->
         LET i == w[2] IN
         IF s.cl[i].hup \/ i \in s.kill THEN Destroy(s, i)
         ELSE LET s1 == IF Writable(s.cl[i])
                        THEN LET r == Flush(s, i) IN IF r[2] THEN [r[1] EXCEPT !.cl[i].wr = FALSE] ELSE r[1]
                        ELSE s
              IN IF Readable(s1.cl[i]) THEN Read(s1, i) ELSE s1

RECURSIVE Settle(_)
Settle(s) ==
  LET W == Work(s) IN
  IF W = {} THEN {s} ELSE UNION {Settle(Process(s, w)) : w \in W}

----------------------------------------------------------------------------
(* The environment *)

\* the process behind connection i goes away: its descriptors are closed
RECURSIVE DropCli(_, _)
DropCli(s, os) == IF os = <<>> THEN s
                  ELSE DropCli(Reap([s EXCEPT !.ofd[Head(os)].cli = 0], Head(os)), Tail(os))
OwnedBy(s, i) == SelectSeq([o \in 1..Len(s.ofd) |-> o], LAMBDA o : s.ofd[o].own = i /\ s.ofd[o].cli > 0)

Env(s, a) ==
  CASE a.a = "connect" -> LET t == [s EXCEPT !.cl = Append(@, NewClient)]
                          IN IF s.falloc # 0 THEN Destroy(t, Len(t.cl)) ELSE t
    [] a.a = "send" -> IF s.cl[a.c].ph = "gone" \/ s.cl[a.c].eof \/ s.cl[a.c].hup THEN s
                       ELSE [s EXCEPT !.cl[a.c].sk = @ \o a.b, !.cl[a.c].nfd = @ + a.nf]
    [] a.a = "close" -> IF s.cl[a.c].ph = "gone" THEN DropCli(s, OwnedBy(s, a.c))
                        ELSE DropCli([s EXCEPT !.cl[a.c].hup = TRUE], OwnedBy(s, a.c))
    [] a.a = "shut" -> IF s.cl[a.c].ph = "gone" THEN s ELSE [s EXCEPT !.cl[a.c].eof = TRUE]
    [] a.a = "closefd" -> IF a.o > Len(s.ofd) \/ s.ofd[a.o].cli = 0 THEN s
                          ELSE Reap([s EXCEPT !.ofd[a.o].cli = @ - 1], a.o)
    [] a.a = "chvt" -> ChangeConsole(s, a.v)
    [] a.a = "deliver" -> [s EXCEPT !.rrel = @ \/ (s.rel /\ a.rel), !.racq = @ \/ (s.acq /\ a.acq),
                                    !.rel = @ /\ ~a.rel, !.acq = @ /\ ~a.acq]
    [] a.a = "spurious" -> [s EXCEPT !.rrel = @ \/ a.rel, !.racq = @ \/ a.acq]
    [] a.a = "term" -> [s EXCEPT !.rterm = TRUE]
    [] a.a = "fpoll" -> [Shutdown(s) EXCEPT !.failed = TRUE]      \* waiting itself fails
    [] a.a = "budget" -> [s EXCEPT !.cl[a.c].bud = a.n]
    [] a.a = "imm" -> [s EXCEPT !.imm = a.on]
    [] a.a = "ext" -> IF a.on /\ Master(s, a.p) = 0 THEN [s EXCEPT !.ext = @ \cup {a.p}]
                      ELSE IF a.on THEN s ELSE [s EXCEPT !.ext = @ \ {a.p}]
    [] a.a = "fopen" -> [s EXCEPT !.fopen = a.e]
    [] a.a = "fdup" -> [s EXCEPT !.fdup = a.e]
    [] OTHER -> s         \* perturbations that must have no effect (EINTR, short reads ...)

RECURSIVE EnvAll(_, _)
EnvAll(s, as) == IF as = <<>> THEN s ELSE EnvAll(Env(s, Head(as)), Tail(as))

ClearOut(s) == [s EXCEPT !.cl = TLCEval([i \in 1..Len(s.cl) |-> [s.cl[i] EXCEPT !.rx = <<>>, !.eofd = FALSE]])]

\* set of possible results of one step
\* memory runs out somewhere in a step that begins with "falloc" and has one other stimulus: before a device
\* is opened (1) or after it (2), or where it does not matter (0)
StepSet(s, as) ==
  IF as # <<>> /\ Head(as).a = "falloc"
  THEN UNION {{[t EXCEPT !.falloc = 0] : t \in Settle(EnvAll([ClearOut(s) EXCEPT !.falloc = v], Tail(as)))} : v \in 0..2}
  ELSE IF as # <<>> /\ Head(as).a = "ftty"     \* no terminal can be opened during this step
  THEN {[t EXCEPT !.ftty = FALSE] : t \in Settle(EnvAll([ClearOut(s) EXCEPT !.ftty = TRUE], Tail(as)))}
  ELSE Settle(EnvAll(ClearOut(s), as))

----------------------------------------------------------------------------
(* Encoding of requests (used by the generators) *)

B16(n) == <<n % 256, n \div 256>>
B32(n) == IF n >= 0 THEN <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
          ELSE <<(n + 256) % 256, 255, 255, 255>>
MOpenSeat == B16(1) \o B16(0)
MCloseSeat == B16(2) \o B16(0)
MOpenDev(b) == B16(3) \o B16(Len(b) + 3) \o B16(Len(b) + 1) \o b \o <<0>>
MCloseDev(n) == B16(4) \o B16(4) \o B32(n)
MAck == B16(5) \o B16(0)
MSwitch(n) == B16(6) \o B16(4) \o B32(n)
MPing == B16(7) \o B16(0)
Path(p) == LET i == CHOOSE i \in DOMAIN FsTable : FsTable[i].p = p /\ FsTable[i].e = 0 IN FsTable[i].b

----------------------------------------------------------------------------
(* The properties, as predicates on quiescent states and on steps *)

Live(s) == {i \in 1..Len(s.cl) : InSeat(s.cl[i])}
Holders(s) == {i \in 1..Len(s.cl) : s.cl[i].ph \in {"active", "pend"}}

P01(s) == /\ Cardinality(Holders(s)) <= 1
          /\ s.act # 0 <=> Holders(s) # {}
          /\ s.act # 0 => s.act \in Holders(s)

\* whoever does not hold the seat enabled has no device access through it
P02(s) == \A o \in 1..Len(s.ofd) :
            LET c == s.cl[s.ofd[o].own]
                open == \E d \in Range(c.devs) : d.o = o
            IN (c.ph # "active" \/ ~open) =>
                 /\ s.ofd[o].k = "evdev" => s.ofd[o].rev
                 /\ Master(s, s.ofd[o].p) # o

P03(s) == \A i \in 1..Len(s.cl) : s.cl[i].ph = "active" =>
            \A d \in Range(s.cl[i].devs) :
              /\ (d.k = "card" /\ s.ext = {}) => (Master(s, d.p) = d.o)
              /\ (d.k = "evdev" /\ d.act) => ~s.ofd[d.o].rev

\* coming back to the seat brings DRM back, whatever happened meanwhile
P03Step(s, t) ==
  \A i \in 1..Len(s.cl) :
    (s.cl[i].ph # "active" /\ t.cl[i].ph = "active") =>
      \A d \in Range(t.cl[i].devs) : (d.k = "card" /\ d.p \notin t.ext) => Master(t, d.p) = d.o

P05(s) == \A i \in 1..Len(s.cl) :
            LET ds == s.cl[i].devs IN
            /\ Len(ds) <= MAXDEV
            /\ \A j \in 1..Len(ds) : ds[j].id > 0 /\ ds[j].ref > 0
            /\ \A j, k \in 1..Len(ds) : j # k => ds[j].id # ds[k].id /\ ds[j].o # ds[k].o
            /\ \A j, k \in 1..Len(ds) : (j # k /\ ds[j].act /\ ds[k].act) => ds[j].p # ds[k].p
            /\ ~InSeat(s.cl[i]) => ds = <<>>

Calm(s) == ~s.rel /\ ~s.acq /\ ~s.rrel /\ ~s.racq /\ s.kill = {}
Slow(s) == \E i \in 1..Len(s.cl) : s.cl[i].out # <<>>

P07(s) == (s.run /\ Calm(s) /\ s.act = 0) =>
            IF s.vtb THEN \A i \in Live(s) : s.cl[i].sess # s.fg ELSE Live(s) = {}

P08(s) == (s.run /\ Calm(s) /\ s.vtb) =>
            /\ \A v \in 1..NVT : s.vt[v].nv = -1
            /\ \A i \in Live(s) : s.cl[i].ph = "active" => s.cl[i].sess = s.fg

P09(s) == IF ~s.vtb THEN \A v \in 1..NVT : s.vt[v] = VTInit
          ELSE \A v \in 1..NVT :
            LET own == {i \in Live(s) : s.cl[i].sess = v} IN
            /\ (\E i \in own : s.cl[i].ph = "active") =>
                 s.vt[v].kd = 1 /\ s.vt[v].kb = 0 /\ s.vt[v].mode = 1
            /\ own = {} => s.vt[v].kd = 0 /\ s.vt[v].kb = 1
            /\ own # {} => s.vt[v].mode = 1

P10(s) == /\ \A i, j \in Live(s) : i # j => s.cl[i].sess # s.cl[j].sess
          /\ \A i \in Live(s) : s.cl[i].sess > 0
          /\ Range(s.seat) = Live(s) /\ Len(s.seat) = Cardinality(Live(s))

P15(s) == ~s.run => /\ \A i \in 1..Len(s.cl) : s.cl[i].ph = "gone"
                    /\ \A v \in 1..NVT : s.vt[v].kd = 0 /\ s.vt[v].kb = 1

\* Step properties.  lab: the environment action of the step s -> t (one at a time)

IsEv(m) == m.k \in {"enable", "disable"}
EvKinds(c) == LET e == SelectSeq(c.rx, IsEv) IN [j \in 1..Len(e) |-> e[j].k]
Resps(c) == SelectSeq(c.rx, LAMBDA m : ~IsEv(m))
Was(s, i) == IF i <= Len(s.cl) THEN s.cl[i].ph ELSE "idle"
Plain(s) == \A i \in 1..Len(s.cl) : s.cl[i].bud < 0 /\ s.cl[i].out = <<>>

\* enable and disable alternate, starting with enable
P01Step(s, t) ==
  Plain(s) =>
  \A i \in 1..Len(t.cl) :
    LET ev == EvKinds(t.cl[i]) IN
    /\ \A k \in 1..(Len(ev) - 1) : ev[k] # ev[k + 1]
    /\ Len(ev) > 0 => (ev[1] = "disable" <=> Was(s, i) = "active")
    /\ (Len(ev) > 0 /\ InSeat(t.cl[i])) => (ev[Len(ev)] = "enable" <=> t.cl[i].ph = "active")
    /\ (Len(ev) = 0 /\ InSeat(t.cl[i])) => (Was(s, i) = "active" <=> t.cl[i].ph = "active")

\* device replies only reach whoever was enabled, and only for permitted nodes
P04(s) == \A o \in 1..Len(s.ofd) : s.ofd[o].k \in {"evdev", "card", "drm"}
P04Step(s, t) ==
  \A o \in (Len(s.ofd) + 1)..Len(t.ofd) :
    LET i == t.ofd[o].own IN Was(s, i) = "active" \/ \E m \in Range(t.cl[i].rx) : m.k = "enable"

\* without VTs: a switch request leads to exactly its target
P06Step(s, t) ==
  ~s.vtb =>
  /\ \A i \in Live(t) : t.cl[i].sess > 0
  /\ (s.nxt # 0 /\ s.act # 0 /\ t.act # s.act /\ s.nxt \in Live(t)) => t.act = s.nxt
  /\ (t.nxt # 0 /\ t.nxt # s.nxt) => t.act # 0 /\ t.cl[t.act].ph = "pend" /\ t.nxt # t.act

\* a VT switch under way gets through: the signals that were delivered have been answered
P08Step(s, t) ==
  (s.vtb /\ t.run /\ ~t.rel /\ ~t.acq) =>
    /\ t.vt[t.fg].nv = -1
    /\ t.act # 0 => (t.cl[t.act].ph = "active" => t.cl[t.act].sess = t.fg)

\* admission
P10Step(s, t) ==
  Plain(s) =>
  \A i \in 1..Len(t.cl) :
    (\E m \in Range(t.cl[i].rx) : m.k = "opened") =>
      /\ Was(s, i) = "idle"
      /\ s.vtb => ~\E j \in Live(s) : s.cl[j].ph = "active"
      /\ (s.vtb /\ InSeat(t.cl[i])) => t.cl[i].sess = s.fg
      /\ s.vtb => ~\E j \in Live(s) : s.cl[j].sess = s.fg

\* what somebody without a seat does concerns nobody else
P11Step(s, t, lab) ==
  (lab.a \in {"send", "close", "shut"} /\ s.cl[lab.c].ph = "idle" /\ t.cl[lab.c].ph \in {"idle", "gone"}) =>
    /\ \A j \in 1..Len(s.cl) : j # lab.c => (t.cl[j].ph = s.cl[j].ph /\ t.cl[j].devs = s.cl[j].devs
                                             /\ (Plain(s) => t.cl[j].rx = <<>>))
    /\ t.mast = s.mast /\ t.ofd = s.ofd /\ t.vt = s.vt /\ t.fg = s.fg /\ t.act = s.act /\ t.nxt = s.nxt
P11Others(s, t, lab) ==
  (lab.a = "send" /\ Plain(s)) => \A j \in 1..Len(s.cl) : j # lab.c => (t.cl[j].ph = "gone" <=> s.cl[j].ph = "gone")

\* one request, one reply
P12Step(s, t, lab) ==
  Plain(s) =>
  \A j \in 1..Len(t.cl) :
    IF lab.a = "send" /\ lab.c = j /\ Was(s, j) # "gone" /\ t.cl[j].ph # "gone"
    THEN Len(Resps(t.cl[j])) = 1 ELSE (lab.a = "send" /\ lab.c = j) \/ Resps(t.cl[j]) = <<>>

\* nothing queued is lost, repeated or reordered
Queued(c) == LET q == SelectSeq(c.out, LAMBDA x : x.last) IN [j \in 1..Len(q) |-> q[j].m]
P13Step(s, t) ==
  \A i \in 1..Len(s.cl) :
    t.cl[i].ph # "gone" =>
      LET before == Queued(s.cl[i])  after == t.cl[i].rx \o Queued(t.cl[i]) IN
      Len(before) <= Len(after) /\ SubSeq(after, 1, Len(before)) = before

P14(s) == /\ \A i \in 1..Len(s.cl) :
                LET c == s.cl[i] IN
                /\ c.ph = "gone" => c.devs = <<>> /\ c.fdq = <<>> /\ c.out = <<>>
                /\ Len(c.fdq) <= Cardinality(SelectIdx(Queued(c), LAMBDA m : m.k = "dev"))
                /\ OutSize(c) <= BUFSZ
          /\ \A o \in 1..Len(s.ofd) : SrvHeld(s, o) > 0 =>
                \E i \in 1..Len(s.cl) : \E x \in Range(s.cl[i].fdq) \cup {d.o : d \in Range(s.cl[i].devs)} : x = o
=============================================================================
