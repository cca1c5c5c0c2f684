"""The components checked on their own."""
from unitcheck import *

def cfg(consts, inv="", props="", view=True, extra=""):
    return "SPECIFICATION Spec\n%sCHECK_DEADLOCK FALSE\n%s\nCONSTANTS\n%s\n%s%s" % (
        "VIEW View\n" if view else "", extra, consts, "INVARIANTS %s\n" % inv if inv else "", "PROPERTIES %s\n" % props if props else "")

class ListComp(Component):
    module, tracemod = "MCList", "ListTrace"
    facets = {"fwd", "bwd", "empty"}
    def i(self, nh, ne, emit=True): return cfg(" NH = %d\n NE = %d\n Emit = %s" % (nh, ne, str(emit).upper()), "I26", "A26")
    def instances(self, tier):
        r = [(self.i(3, 3), {"nh": 3, "ne": 3}, 1), (self.i(2, 4), {"nh": 2, "ne": 4}, 1)]
        if tier == "thorough": r.append((self.i(3, 4), {"nh": 3, "ne": 4}, 3))
        return r
    def deep(self, tier): return [self.i(4, 4, False), self.i(2, 6, False), self.i(3, 5, False)] if tier == "thorough" else []
    def random_walk(self, rng, k, tier):
        nh, ne = rng.randint(1, 6), rng.randint(1, 24)
        where, ops = {}, []
        for _ in range(rng.randint(5, 150)):
            free = [e for e in range(1, ne + 1) if e not in where]
            op = rng.choice(["ins", "ins", "app", "after", "del", "init", "take", "sweep"])
            h = rng.randint(1, nh)
            if op in ("ins", "app") and free: e = rng.choice(free); where[e] = h; ops.append([op, h, e])
            elif op == "after" and free and where:
                d = rng.choice(sorted(where)); e = rng.choice(free); where[e] = where[d]; ops.append([op, d, e])
            elif op == "del" and where: d = rng.choice(sorted(where)); del where[d]; ops.append([op, d])
            elif op == "init" and free: ops.append([op, rng.choice(free)])
            elif op == "take" and nh > 1:
                g = rng.choice([x for x in range(1, nh + 1) if x != h])
                for e in where:
                    if where[e] == g: where[e] = h
                ops.append([op, h, g])
            elif op == "sweep" and rng.random() < .3:
                b = rng.randint(0, 1)
                where = {e: x for e, x in where.items() if x != h or e % 2 == b}
                ops.append([op, h, b])
        return {"nh": nh, "ne": ne}, ops or [["init", 1]]
    def execute(self, items):
        return run_driver(self.bdir + "/list_drv", [("%d %d" % (m["nh"], m["ne"]), ops) for m, ops in items])

class LogComp(Component):
    module, tracemod = "MCLog", "LogTrace"
    facets = {"calls", "err", "errno"}
    sizes = {"quick": dict(tour=12000, rand=300, maxlen=60), "thorough": dict(tour=100000, rand=10000, maxlen=80)}
    FORMS, H = ("plain", "empty", "long", "errno", "args"), ("A", "B", "sw", "mute")
    def instances(self, tier):
        t = lambda x: "{" + ", ".join('"%s"' % y if isinstance(y, str) else str(y) for y in x) + "}"
        c = lambda forms, errs: cfg(" Handlers = %s\n Forms = %s\n Errnos = %s\n Emit = TRUE" % (t(self.H), t(forms), t(errs)), "I27", "A27")
        return [(c(self.FORMS, (0, 11)), {"tty": 0}, 1), (c(self.FORMS, (0, 2)), {"tty": 1}, 1)]
    def random_walk(self, rng, k, tier):
        ops = []
        for _ in range(rng.randint(3, 80)):
            x = rng.random()
            ops.append(["level", rng.choice([0, 1, 2, 3, 3])] if x < .15 else ["handler", rng.choice(self.H + ("null", "null"))] if x < .3 else ["init"] if x < .35 else ["wait"] if x < .36
                       else ["log", rng.randint(1, 3), rng.choice(self.FORMS), rng.choice([0, 2, 9, 11, 13, 104])])
        return {"tty": rng.randint(0, 1)}, ops
    def execute(self, items): return run_driver(self.bdir + "/log_drv", [(str(m["tty"]), ops) for m, ops in items])

class ConnComp(Component):
    logs = True
    module, tracemod = "MCConn", "ConnTrace"
    facets = {"ret", "bytes", "fds", "closed"}
    def i(self, sizes, fds, plans, dirs, maxfd=2, emit=True):
        t = lambda x: "{" + ", ".join('"%s"' % y if isinstance(y, str) else str(y) for y in x) + "}"
        return cfg(" Sizes = %s\n FdSizes = %s\n Plans = %s\n Dirs = %s\n MaxFd = %d\n Emit = %s" % (t(sizes), t(fds), t(plans), t(dirs), maxfd, str(emit).upper()),
                   "I17", "A17", extra="CONSTRAINT Few")
    ALL = ("all", "again", "part", "intr", "pipe", "bits")
    def instances(self, tier):
        r = [(self.i((0, 64, 160, 256, 257), (0,), self.ALL, ("out", "fdout"), 1), {}, 1),
             (self.i((0, 32, 96, 160, 256, 257), (0,), ("all",), ("in",)), {}, 1),
             (self.i((128, 256), (0, 16, 48, 64), ("all",), ("in", "fdin")), {}, 1)]
        if tier == "thorough":
            r += [(self.i((0, 32, 96, 160, 256, 300), (0,), self.ALL, ("out", "fdout"), 2), {}, 2),
                  (self.i((64, 128, 256), (0, 16, 64), ("all",), ("in", "fdin")), {}, 2)]
        return r
    def random_walk(self, rng, k, tier):
        if k == 0: return {}, [["spin", 16777200], ["read", 256, 3], ["get", 100], ["read", 200, 0], ["get", 99], ["restore", 99]] + [["get", 1], ["read", 40, 0]] * 60 + \
                              [["put", 100, 0], ["put", 90, 0], ["flush", 7, 11], ["put", 250], ["put", 250], ["putfd"], ["flush", 100, 0], ["flush"]] * 20
        ops = []
        inb = h = fdin = outfd = 0
        style = rng.choice(["in", "out", "both", "both", "fd"])
        for _ in range(rng.randint(10, 150)):
            kind = rng.choice({"in": ["read", "read", "get", "get", "restore"], "out": ["put", "put", "flush"],
                               "both": ["read", "get", "get", "restore", "put", "put", "flush", "putfd", "getfd"],
                               "fd": ["read", "getfd", "getfd", "getfd", "get", "putfd", "putfd", "put", "flush", "closefds"]}[style])
            size = lambda: rng.choice([0, 1, 2, 3, 4, 5, 8, 16, 100, 127, 128, 129, 250, 255, 256, 257, 300, 5000, rng.randint(0, 256), rng.randint(0, 60)])
            plan = [rng.choice([-1, -1, 1, 2, rng.randint(1, 256), rng.randint(1, 256)]) for _ in range(rng.choice([0, 0, 1, 2, 3]))] + rng.choice([[], [], [0], [-2]])
            if kind == "read":
                n = rng.choice([-1, 0, 1, 256]) if rng.random() < .2 else rng.randint(1, 256)
                nf = rng.choice([0, 0, 0, 1, 2, rng.randint(0, 64)]) if style != "in" else 0
                full = inb >= 256
                ops.append(["read", n, nf if n > 0 else 0] + ([1] if rng.random() < .2 else []))
                if not full and n > 0:
                    if fdin + nf > 64: ops.append(["closefds"]); break
                    inb = min(256, inb + n); fdin += nf; h = 0
            elif kind == "get":
                n = size(); ops.append(["get", n])
                if n <= inb: inb -= n; h += n
            elif kind == "restore":
                if h: n = rng.randint(1, h); ops.append(["restore", n]); inb += n; h -= n
            elif kind == "put": ops.append(["put", size()] + plan)
            elif kind == "flush": ops.append(["flush"] + plan)
            elif kind == "putfd": ops += [["putfd"]] * rng.choice([1, 1, 1, 5, 63, 64, 65])
            elif kind == "getfd":
                ops.append(["getfd"]); fdin = max(0, fdin - 1)
            elif kind == "closefds": ops.append(["closefds"]); fdin = 0
        ops.append(["closefds"])
        return {}, ops
    def trace(self, meta, ops, obs):
        st = []
        for a, o in zip(ops, obs):
            r = {"op": a[0]}
            if a[0] in ("put", "get", "restore", "spin"): r["n"] = a[1]
            if a[0] in ("put", "flush"): r["res"], r["log"] = o.get("res", []), o.get("log", [])
            if a[0] == "read": r["n"], r["k"], r["m"], r["cl"] = a[1], a[2], o.get("m", 0), o.get("cli", [])
            st.append({"a": r, "o": {k: v for k, v in o.items() if k not in ("log", "res", "m")}})
        return {"steps": st}
    def execute(self, items):
        return run_driver(self.bdir + "/conn_drv", [(logged(m), ops) for m, ops in items])

class PollComp(Component):
    logs = True
    module, tracemod = "MCPoller", "PollerTrace"
    facets = {"calls", "dfl"}
    def i(self, n, fdx, sigs, masks, ready, cbops, emit=True):
        t = lambda x: "{" + ", ".join('"%s"' % y if isinstance(y, str) else str(y) for y in x) + "}"
        return cfg(" MaxSrc = %d\n Fdx = %s\n Sigs = %s\n Masks = %s\n Readies = %s\n CbOps = %s\n Emit = %s" % (n, t(fdx), t(sigs), t(masks), t(ready), t(cbops), str(emit).upper()),
                   "I18", "A18")
    def instances(self, tier):
        r = [(self.i(2, (1,), (10, 12), (1,), (0, 1), ("raise", "chg", "add")), {"nf": 1}, 1),
             (self.i(3, (1,), (10,), (1,), (0, 1), ("raise", "chg")), {"nf": 1}, 1.5),
             (self.i(2, (1, 2), (10,), (1, 5), (0, 4, 17), ("chg", "add")), {"nf": 2}, 1)]
        return r
    def deep(self, tier):
        return [self.i(4, (1,), (10,), (1,), (0, 1), ("raise", "chg", "add"), False), self.i(3, (1, 2), (10, 12), (1,), (0, 1), ("raise", "chg"), False)] if tier == "thorough" else []
    def random_walk(self, rng, k, tier):
        nf, ops, n = rng.randint(1, 3), [], 0
        if k == 0: return {"nf": 1}, [["addsig", 10], ["addsig", 12], ["addfd", 1, 1], ["flood", 10, 70000], ["poll", "drain", 12, 1], ["poll", "none", 10, 0], ["poll", "none", 10, 0], ["finish"]]
        if k % 60 == 1:     # many sources
            nf = rng.choice([20, 70, 140, 280])
            R = lambda d: ["poll", "none", 10] + [rng.choice([1, 4, 5]) if rng.random() < d else 0 for _ in range(nf)]
            ops = [["addsig", 10]]
            for x in range(1, nf + 1):
                ops.append(["addfd", x, rng.choice([1, 1, 4, 5])])
                if rng.random() < .04: ops.append(R(.1))
            ops += [R(.1), R(1), R(0)[:1] + ["before"] + R(.3)[2:]]
            for _ in range(nf // 2): ops.append(["destroy", rng.randint(1, nf // 2)])
            ops += [R(.5), R(.5)]
            for x in range(nf // 3): ops.append(["addfd", rng.randint(1, nf), 1])
            ops += [R(.5), R(1), ["finish"]]
            return {"nf": nf, "blk": 0}, ops
        def edit():
            o = rng.choice(["addfd", "addsig", "destroy", "update", "raise", "addfd", "addsig"])
            if o == "addfd": return [o, rng.randint(1, nf), rng.choice([0, 1, 4, 5])]
            if o == "addsig": return [o, rng.choice([10, 12])]
            if o == "destroy": return [o, rng.randint(1, 8)]
            if o == "update": return [o, rng.randint(1, 8), rng.choice([0, 1, 4, 5])]
            return [o, rng.choice([10, 12])]
        for _ in range(rng.randint(5, 60)):
            if rng.random() < .4: ops.append(edit())
            else:
                p = ["poll", rng.choice(["none", "none", "before", "intr", "late", "mid", "drain"]), rng.choice([10, 12])] + [rng.choice([0, 0, 1, 4, 5, 8, 16, 17]) for _ in range(nf)]
                for _ in range(rng.choice([0, 1, 1, 2, 3])): p += [rng.randint(1, 7)] + edit()
                ops.append(p)
        ops.append(["finish"])
        return {"nf": nf, "blk": int(rng.random() < .3)}, ops
    def trace(self, meta, ops, obs):
        return {"steps": [{"a": {"op": a[:1], "log": o.get("log", [])}, "o": {k: v for k, v in o.items() if k != "log"}} for a, o in zip(ops, obs)]}
    def execute(self, items):
        return run_driver(self.bdir + "/poll_drv", [(logged(m, m["nf"], m.get("blk", 0)), ops) for m, ops in items])

import lsgen
class LibseatComp(Component):
    logs = True
    module, tracemod = "MCLibseat", "LibseatTrace"
    sizes = {"quick": dict(tour=12000, rand=800, maxlen=40), "thorough": dict(tour=500000, rand=60000, maxlen=60)}
    def i(self, calls, segs, maxplan, srvs, cb=("none", "none"), tmos=(0, 99), maxq=8, emit=True):
        t = lambda x: "{" + ", ".join('"%s"' % y if isinstance(y, str) else str(y) for y in x) + "}"
        arg = {"close_device": ",7", "switch_session": ",2", "open_device": ",/a"}
        return cfg(" Calls = %s\n Segs = %s\n MaxPlan = %d\n Srvs = %s\n CbE = \"%s\"\n CbD = \"%s\"\n Tmos = %s\n MaxQ = %d\n Emit = %s" % (
                   t(calls), t(segs), maxplan, t(srvs), cb[0], cb[1], t(tmos), maxq, str(emit).upper()),
                   "I19", "A19", extra="CONSTRAINT Small"), {"cb": [x + arg.get(x, "") for x in cb]}
    def instances(self, tier):
        A = ("open_seat", "close_seat", "dispatch")
        r = [self.i(A + ("open_device", "close_device"), ("R", "ER", "RE", "X", "W", "h", "H"), 1, ("E", "P", "t")) + (1,),
             self.i(A + ("disable_seat",), ("R", "ER", "RD", "D", "P", "RPE", "F", "Z", "RZ"), 1, ("E", "D", "P", "Z"), ("none", "disable_seat")) + (1,),
             self.i(A + ("switch_session",), ("h", "tR", "R", "RE", "P", "r"), 2, ("E", "P", "h"), ("open_device", "none"), (99,)) + (2,)]
        if tier == "thorough":
            r += [self.i(A + ("open_device", "bad_close", "get_fd", "seat_name"), ("R", "ER", "RE", "RD", "X", "XE", "B", "W", "F", "h", "tR", "H", "EZ", "RZ", "ZR"), 2, ("E", "D", "h", "t", "W", "H"), maxq=12) + (3,),
                  self.i(A + ("disable_seat", "open_device"), ("R", "ER", "EDR", "RD", "RPE", "REP", "D", "P", "RW"), 2, ("ED", "D", "P"), ("close_device", "disable_seat"), maxq=12) + (3,)]
        return r
    def random_walk(self, rng, k, tier): return {"cb": ["none", "none"]}, lsgen.walk(rng, .02 if tier == "quick" else .003)
    def oplist(self, acts): return [lsgen.line(a) for a in acts]
    def trace(self, meta, ops, obs):
        return {"steps": [{"a": {"op": a, "log": o.get("log", [])}, "o": {k: v for k, v in o.items() if k != "log"}} for a, o in zip(ops, obs)]}
    def execute(self, items): return run_driver(self.bdir + "/ls_drv", [(logged(m, *m["cb"]), ops) for m, ops in items])
class C19(LibseatComp): facets = {"events"}
class C20(LibseatComp): facets = {"wake"}
class C21(LibseatComp): facets = {"ret", "sent", "fds"}

import lggen
class LogindComp(Component):
    logs = True
    module, tracemod = "MCLogind", "LogindTrace"
    facets = {"events", "wake", "ret", "sent", "fds"}
    sizes = {"quick": dict(tour=60000, rand=800, maxlen=40), "thorough": dict(tour=500000, rand=60000, maxlen=60)}
    def i(self, calls, groups, maxplan, idles, srvs, cb=("none", "none"), tmos=(0, 99), envs=("ok",), act=1, maxq=2, maxdev=1, emit=True):
        t = lambda x: "{" + ", ".join('"%s"' % y if isinstance(y, str) else str(y) for y in x) + "}"
        return cfg(" Calls = %s\n Groups = %s\n MaxPlan = %d\n Idles = %s\n Srvs = %s\n CbE = \"%s\"\n CbD = \"%s\"\n Tmos = %s\n Envs = %s\n Act0 = %d\n MaxQ = %d\n MaxDev = %d\n Emit = %s" % (
                   t(calls), t(groups), maxplan, t(idles), t(srvs), cb[0], cb[1], t(tmos), t(envs), act, maxq, maxdev, str(emit).upper()),
                   "I25", "A25", extra="CONSTRAINT Small"), {"cb": [lggen.CB.get(x, x) for x in cb], "act": act}
    def instances(self, tier):
        A = ("open_seat", "close_seat", "dispatch")
        R = ("open_null", "close_device", "switch_session")
        r = [self.i(A + R, ("E", "X", "H", "A0R", "RI0"), 1, ("A1", "H"), ("A0", "I1", "p1"), envs=("ok", "pid", "typed", "nodisp", "noconn")) + (1,),
             self.i(A + ("open_none", "close_bad", "close_neg", "switch_neg", "get_fd", "seat_name", "disable_seat"), ("A1R", "A0E"), 1, ("I0", ""), ("A1", "f1", "g1", "u", "r", "oA0", "qA1", "zA0", "ph", "pa"), act=0, envs=("ok", "disp", "typed", "noxdg", "noseat")) + (1,),
             self.i(A + ("open_zero",), ("A0R", "RA1", "p1R"), 1, ("p1A0", "I0A1"), ("p1p2", "A1I0", "A1uI0", "H"), cb=("open_null", "close_device"), maxdev=2, maxq=3) + (1,)]
        if tier == "thorough":
            r += [self.i(A + R, ("E", "X", "H", "A0R", "A1R", "RI0", "p1R", "EA1", "A0H"), 2, ("A1", "H", "p1A0", "I1I0"), ("A0", "I1", "p1", "ph", "pa"), maxq=3) + (2,),
                  self.i(A + ("open_zero", "close_device"), ("A1A0R", "uRp1", "I0R", "I1R", "A0H", "E"), 2, ("A0A1", "I0A1", "p1"), ("p1p2", "A1uI0", "I1", "r", "H"), cb=("open_null", "close_device"), act=0, maxdev=2, maxq=4) + (2,)]
        return r
    def deep(self, tier):
        A = ("open_seat", "close_seat", "dispatch", "open_null", "close_device")
        return [self.i(A, ("E", "A0R", "RI0", "p1R"), 1, ("A1", "I0"), ("A0", "I1", "p1", "ph", "pa"), maxq=5, cb=("open_null", "close_device"), maxdev=2, emit=False)[0]] if tier == "thorough" else []
    def random_walk(self, rng, k, tier): return {"cb": ["none", "none"], "act": rng.randint(0, 1)}, lggen.walk(rng, .02 if tier == "quick" else .003)
    def oplist(self, acts): return [lggen.line(a) for a in acts]
    def trace(self, meta, ops, obs):
        return {"steps": [{"a": {"op": a, "log": o.get("log", [])}, "o": {k: v for k, v in o.items() if k != "log"}} for a, o in zip(ops, obs)]}
    def execute(self, items): return run_driver(self.bdir + "/lg_drv", [(logged(m, *m["cb"], m["act"]), ops) for m, ops in items])

class BackendComp(Component):
    logs = True
    module, tracemod = "MCBackend", "BackendTrace"
    facets = {"calls", "fds"}
    sizes = {"quick": dict(tour=6000, rand=1500, maxlen=12), "thorough": dict(tour=200000, rand=30000, maxlen=25)}
    NAMES = ("unset", "seatd", "logind", "builtin", "noop", "empty", "bogus", "seat", "seatd2", "Noop", "noo", "noop,seatd")
    DEVS = ("a", "b", "fifo", "ro", "link", "sub", "none")
    def i(self, names, ls, ms, ml, mb, mn, tmos, devs, runs, emit=True):
        t = lambda x: "{" + ", ".join('"%s"' % y if isinstance(y, str) else str(y) for y in x) + "}"
        return cfg(" Names = %s\n Listeners = %s\n MSeatd = %s\n MLogind = %s\n MBuiltin = %s\n MNoop = %s\n Tmos = %s\n Devices = %s\n MaxRuns = %d\n Emit = %s" % (
                   t(names), t(ls), t(ms), t(ml), t(mb), t(mn), t(tmos), t(devs), runs, str(emit).upper()), "I22", "A22")
    def instances(self, tier):
        m = ("o", "r", "e", "b", "h"), ("o", "p", "s", "n", "g", "c"), ("o", "f", "x", "s")
        L = ("ok", "null", "noenable", "nodisable")
        return [(self.i(self.NAMES[:8], L[:1], m[0], m[1], m[2], ("o",), (), (), 1), {}, 3),
                (self.i(self.NAMES, L, ("o",), ("o",), ("o",), ("o", "s"), (), (), 2), {}, 1),
                (self.i(("noop",), L[:1], ("o",), ("o",), ("o",), ("o",), (0, 1, 50, 99), self.DEVS, 3 if tier == "quick" else 6), {}, 1)]
    def oplist(self, acts): return acts
    def line(self, a):
        if a["op"] == "open": return ["open", a["x"], a["y"], a["m"]["seatd"] + a["m"]["logind"] + a["m"]["builtin"] + a["m"]["noop"]]
        return [a["op"]] + {"dispatch": [a["n"]], "open_device": [a["x"]], "close_device": [a["n"]], "switch_session": [a["n"]]}.get(a["op"], [])
    def act(self, op, x="", y="", n=0, m="oooo"): return {"op": op, "x": x, "y": y, "n": n, "m": dict(zip(("seatd", "logind", "builtin", "noop"), m))}
    def random_walk(self, rng, k, tier):
        ops, st = [], None
        for _ in range(rng.randint(2, 25)):
            if st is None:
                nm = rng.choice(self.NAMES + ("noop", "noop", "noop", "unset"))
                m = rng.choice("oooorebh") + rng.choice("oopsngc") + rng.choice("oofxs") + rng.choice("ooos")
                l = rng.choice(["ok"] * 9 + ["null", "noenable", "nodisable"])
                ops.append(self.act("open", nm, l, 0, m))
                ok = {b: m[j] == "o" for j, b in enumerate(("seatd", "logind", "builtin", "noop"))}
                if l == "ok": st = next((b for b in ("seatd", "logind", "builtin") if ok[b]), None) if nm == "unset" else nm if ok.get(nm) else None
            elif st != "noop":
                ops.append(self.act(rng.choice(["seat_name", "close_seat"])))
            else:
                c = rng.choice(["dispatch"] * 4 + ["open_device"] * 4 + ["close_device", "switch_session", "disable_seat", "get_fd", "seat_name", "close_seat"])
                ops.append(self.act(c, rng.choice(self.DEVS) if c == "open_device" else "", "",
                                    rng.choice([0, 0, 1, 7, 1000, -1]) if c == "dispatch" else rng.choice([0, 1, 2, 5]) if c == "close_device" else rng.choice([0, 1, 2, 7, -1, 63]) if c == "switch_session" else 0))
            if ops[-1]["op"] == "close_seat": st = None
        return {}, ops
    def trace(self, meta, ops, obs):
        return {"steps": [{"a": dict(a, log=o.get("log", [])), "o": {k: v for k, v in o.items() if k != "log"}} for a, o in zip(ops, obs)]}
    def execute(self, items):
        t = scratch("verif-be.")
        os.chmod(t, 0o755)
        try: return run_driver(self.bdir + "/be_drv", [(logged(m, "x"), [self.line(a) for a in ops]) for m, ops in items], env={"VERIF_BE_DIR": t})
        finally: shutil.rmtree(t, ignore_errors=True)

import builtin, multiprocessing
_bb = None
hangs = multiprocessing.Value("i", 0)
def _bjob(j):
    if hangs.value >= 8: return {"skip": 1}          # it hangs often enough to tell
    try:
        r = builtin.run(_bb, j[0], j[1])
        if r["steps"] and r["steps"][-1]["o"]["alive"] in ("hang", "spin"): hangs.value += 1
        return r
    except Exception as e: return {"error": "%s: %s" % (type(e).__name__, e)}
class BuiltinComp(Component):
    logs = True
    module, tracemod = "MCBuiltin", "BuiltinTrace"
    facets = {"app", "proc", "sock", "fg", "nv", "sig", "vt", "novt", "opens", "rev", "mast", "held", "fds", "order"}
    sizes = {"quick": dict(tour=9000, rand=600, maxlen=40), "thorough": dict(tour=200000, rand=20000, maxlen=60)}
    def i(self, vtb=True, imm=False, ack=False, calls=(), paths=("/dev/dri/card0", "/dev/input/event0"), maxofd=1, maxref=1, vts=(1, 2), extra=(), dies=(), sig=0, emit=True):
        t = lambda x: "{" + ", ".join('"%s"' % y if isinstance(y, str) else str(y) for y in x) + "}"
        b = lambda x: str(bool(x)).upper()
        return cfg(" VTB = %s\n IMM = %s\n ACK = %s\n Calls = %s\n PathsUsed = %s\n MaxOfd = %d\n MaxRef = %d\n VTs = %s\n Extra = %s\n Dies = %s\n Emit = %s" % (
                   b(vtb), b(imm), b(ack), t(calls), t(paths), maxofd, maxref, t(vts), t(extra), t(dies), b(emit)), "I24", "A24", extra="CONSTRAINT Few"), \
               {"vtb": vtb, "fg": 1, "imm": imm, "ack": ack, "sig": sig}
    ALL = ("open_device", "close_device", "disable_seat", "switch_session")
    def instances(self, tier):
        D = (10, 11, 20, 21, 22, 30) if tier == "thorough" else (10, 11, 20)
        r = [self.i(calls=self.ALL + ("close_bad",), extra=("die",), vts=(2,)) + (3,),
             self.i(calls=self.ALL, ack=True, imm=True, extra=("term", "kill"), sig=3) + (2,),
             self.i(calls=("open_device", "close_device"), vtb=False, maxofd=2, maxref=2 if tier == "thorough" else 1, extra=("die", "ext", "closefd", "kill"), sig=1) + (2,),
             self.i(calls=("open_device", "disable_seat", "switch_session"), paths=("/dev/dri/card0",), vts=(2,), dies=D, sig=1) + (2,),
             self.i(calls=(), vts=(1, 2), extra=("spurious", "term", "kill", "die"), sig=2) + (1,)]
        return r
    def random_walk(self, rng, k, tier):
        import fsdata, seatdgen
        meta = {"vtb": rng.random() < .75, "fg": rng.randint(1, 3), "imm": rng.random() < .4, "ack": rng.random() < .5, "sig": rng.choice([0, 0, 1, 1, 2, 3])}
        L = lambda op, **kw: dict({"op": op, "n": 0, "b": [], "c": "none", "how": 0, "e": {"a": "noop"}}, **kw)
        acts, up = [], False
        P = ["/dev/dri/card0", "/dev/dri/card1", "/dev/input/event0", "/dev/input/event1", "/dev/hidraw0", "/dev/dri/renderD128", "/etc/passwd", "/dev/input/../../etc/passwd", "/dev/tty1", ""]
        def call():
            c = rng.choice(["dispatch"] * 5 + ["open_device"] * 5 + ["close_device"] * 3 + ["disable_seat"] * 2 + ["switch_session"] * 2)
            return L(c, b=list(rng.choice(P).encode()) if c == "open_device" else [], n=rng.choice([1, 1, 1, 2, 2, 3, 4, 77]) if c == "close_device" else rng.choice([0, 1, 2, 3, 4]) if c == "switch_session" else 0)
        for _ in range(rng.randint(3, 30)):
            x = rng.random()
            if not up and x < .7: acts.append(L("open_seat")); up = True
            elif up and x < .62: acts.append(call())
            elif up and x < .66: acts.append(L("close_seat")); up = False
            elif x < .69: acts.append(L("env", e={"a": "closefd", "o": rng.randint(1, 3)}))
            elif x < .71: acts.append(L("spawn"))
            elif x < .73: acts.append(L("killsrv"))
            elif x < .75: acts.append(L("env", e={"a": "term", "sig": rng.choice([15, 2])}))
            elif x < .78: acts.append(L("env", e={"a": "ext", "p": rng.choice(P[:2]), "on": rng.random() < .6}))
            elif x < .80: acts.append(L("env", e={"a": rng.choice(["fopen", "fdup"]), "e": rng.choice([5, 13, 24])}))
            elif x < .83: acts.append(L("env", e={"a": "spurious", "rel": rng.random() < .6, "acq": rng.random() < .6}))
            elif x < .91: acts.append(L("env", e={"a": "chvt", "v": rng.randint(1, 3)}))
            else: acts.append(L("env", e={"a": "deliver", "rel": rng.random() < .8, "acq": rng.random() < .8}))
        e = rng.random()
        if e < .15: acts.append(L("die", how=rng.choice([0, 100, 101])))
        elif e < .7: acts.append(L("die", c="open_seat" if not up else rng.choice(["x"] * 4 + ["close_seat"])))
        if e >= .15 and e < .7:
            d = rng.choice([1, 1, 1, 2, 2, 3, 4, 5, 6]) * 10 + rng.choice([0, 1, 2])
            a = acts[-1]
            if a["c"] == "open_seat": a["n"], a["how"] = d // 10, d % 10
            else:
                if a["c"] == "x": x = call(); a.update(c=x["op"], b=x["b"], how=100 * x["n"] + d)
                else: a["how"] = d
        return meta, acts
    def trace(self, meta, ops, obs): return dict(meta, steps=[{"a": a, "o": o} for a, o in obs])
    def execute(self, items):
        global _bb
        _bb = self.bdir
        import srv
        hangs.value = 0
        srv.fsroot()
        n = min(NPROC, len(items))
        if n == 1: rs = [_bjob(items[0])]
        else:
            with multiprocessing.Pool(n) as p: rs = p.map(_bjob, items, chunksize=4)
        for r in rs:
            if "error" in r: raise ToolError("harness: " + r["error"])
        return [[(s["a"], s["o"]) for s in r.get("steps", [])] for r in rs]

import startup
class StartupComp(Component):
    module, tracemod = "MCStartup", "StartupTrace"
    facets = {"start"}
    sizes = {"quick": dict(tour=3000, rand=60, maxlen=30), "thorough": dict(tour=40000, rand=3000, maxlen=30)}
    TOKS = ("ud", "ub", "ux", "gd", "gx", "n", "nx", "l", "lx", "u", "z", "v", "h", "x")
    def i(self, toks, n, fopts, emit=True):
        t = lambda x: "{" + ", ".join('"%s"' % y for y in x) + "}"
        return cfg(" Toks = %s\n MaxOpts = %d\n FOpts = %s\n Emit = %s" % (t(toks), n, t(fopts), str(emit).upper()), "I16")
    def instances(self, tier):
        return [(self.i(self.TOKS, 3, ("ug", "z", "n", "")) if tier == "thorough" else self.i(self.TOKS, 2, ("ug", "z", "n")), {}, 1)]
    def random_walk(self, rng, k, tier):
        ops = []
        tok = [["u", "daemon"], ["u", "bin"], ["u", "root"], ["g", "daemon"], ["g", "bin"], ["n", "9"], ["n", "9"], ["l", "info"], ["l", "silent"], ["z", ""]]
        odd = [["u", "no-such-user"], ["g", "no-such-group"], ["n", "-1"], ["l", "x"], ["v", ""], ["h", ""], ["q", ""]]
        for _ in range(rng.randint(2, 8)):
            if rng.random() < .2: ops.append({"op": "put", "obj": rng.choice(["sock", "file", "dir", "fifo", "lnsock", "lnfile", "lnnone"]), "opts": [], "end": ""})
            f = {"c": "", "n": 0}
            if rng.random() < .5: f = {"c": rng.choice(["socket", "bind", "listen", "chmod", "chown", "write", "pipe", "unlink", "calloc", "socket"]), "n": rng.choice([1, 1, 2, 3, 4, 5, 8])}
            ops.append({"op": "run", "opts": [rng.choice(tok if rng.random() < .9 else odd) for _ in range(rng.randint(0, 5))], "fail": f,
                        "race": rng.random() < .1, "end": rng.choice(["term", "int", "kill"])})
        return {}, ops
    def trace(self, meta, ops, obs):
        return {"steps": [{"a": {"op": a["op"], "obj": a.get("obj", ""), "opts": a["opts"], "end": a["end"], "log": o.get("log", [])}, "o": {}} for a, o in zip(ops, obs)]}
    def execute(self, items):
        with ThreadPoolExecutor(NPROC) as ex: return list(ex.map(lambda it: startup.run_walk(self.bdir, it[1]), items))

import launch
class LaunchComp(Component):
    module, tracemod = "MCLaunch", "LaunchTrace"
    facets = {"run"}
    sizes = {"quick": dict(tour=100000, rand=150, maxlen=10), "thorough": dict(tour=100000, rand=20000, maxlen=10)}
    LINES = ("e0", "e3", "e255", "s9", "s15", "s11", "s1", "slow", "dd", "lvl", "lvl2", "nocmd", "noexec", "none", "ddnone", "h", "v", "hx", "xh", "x", "l", "lh", "l1")
    PLANS = ("ok", "late", "early", "nosock", "x0", "x1", "k9", "close", "die", "die2")
    def instances(self, tier):
        t = lambda x: "{" + ", ".join('"%s"' % y for y in x) + "}"
        who = ("user", "root", "sgid", "daemon", "plain", "suid") if tier == "thorough" else ("user", "root", "plain")
        return [(cfg(" Lines = %s\n Plans = %s\n Who = %s\n Emit = TRUE" % (t(self.LINES), t(self.PLANS), t(who)), "I23", "A23", view=False), {}, 1)]
    def random_walk(self, rng, k, tier):
        ops = []
        for _ in range(8):
            pre = rng.choice([[], [], ["--"], ["-l", rng.choice(["debug", "silent", "x"])], ["-l", "info", "--"]])
            c = ["cmd"] + rng.choice([[], ["sleep:%d" % rng.randint(0, 30)]]) + (["-h", "-l", "--"] if "--" in pre and rng.random() < .5 else []) + \
                [rng.choice(["exit:%d" % rng.choice([0, 1, 2, 127, 128, 200, 255]), "sig:%d" % rng.choice([1, 2, 3, 4, 6, 8, 9, 10, 11, 13, 14, 15, 24, 31, 34, 64])])]
            real = rng.random() < .2
            plan = ["real"] if real else ["bind"] * (rng.random() < .9) + ["sleep:%d" % rng.randint(0, 30)] * (rng.random() < .3) + ["ready"] * (rng.random() < .8) + ["sleep:%d" % rng.randint(0, 30)] * (rng.random() < .3)
            if "ready" not in plan and not real or rng.random() < .2 and not real: plan += [rng.choice(["exit:0", "exit:1", "kill:9"])]
            if real and rng.random() < .7: c.insert(1, "ping")
            f = {"c": "", "n": 0, "e": 0}
            if rng.random() < .4:
                f = rng.choice([("pipe", 1, 24), ("fork", 1, 12), ("fork", 2, 12), ("chown", 1, 2), ("chmod", 1, 30), ("setgid", 1, 1), ("setuid", 1, 1), ("execve", 1, 13), ("execvp", 1, 7),
                                ("waitnb", rng.randint(1, 3), rng.choice([4, 22])), ("poll", rng.randint(1, 3), rng.choice([4, 11, 12, 22])), ("read", 1, rng.choice([4, 5])), ("waitpid", rng.randint(1, 1), rng.choice([4, 10]))])
                f = dict(zip("cne", f))
            ops.append({"args": pre + c, "plan": plan, "ids": rng.choice(["user", "root", "sgid", "daemon", "plain", "suid"]), "fail": f, "chld": int(rng.random() < .2)})
        return {}, ops
    def trace(self, meta, ops, obs):
        return {"steps": [{"a": {"args": a["args"], "ids": a["ids"], "log": o.get("log", [])}, "o": {}} for a, o in zip(ops, obs)]}
    def execute(self, items):
        t = launch.tools(self.bdir)
        try:
            with ThreadPoolExecutor(NPROC) as ex: return list(ex.map(lambda it: [{"log": launch.run_launch(self.bdir, t, a)} for a in it[1]], items))
        finally: shutil.rmtree(t, ignore_errors=True)

COMPONENTS = {"C22": BackendComp, "C24": BuiltinComp, "C25": LogindComp, "C23": LaunchComp, "C16": StartupComp, "C19": C19, "C20": C20, "C21": C21, "C18": PollComp, "C17": ConnComp, "C26": ListComp, "C27": LogComp}
_run = run
def run(pid, tier, seed): return _run(COMPONENTS[pid](), pid, tier, seed)
