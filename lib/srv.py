"""Runs the real seatd in lock step with scripted environment actions and records what can be observed."""
import array, ctypes, json, mmap, os, select, shutil, signal, socket, struct, subprocess, sys, time
from common import *
import fsdata

NVT = 4
class VT(ctypes.Structure): _fields_ = [(n, ctypes.c_int32) for n in "mode kd kb newvt relsig acqsig pid pad".split()]
class NODE(ctypes.Structure): _fields_ = [("master", ctypes.c_int32), ("ext", ctypes.c_int32), ("path", ctypes.c_char * 56)]
class OFD(ctypes.Structure): _fields_ = [(n, ctypes.c_int32) for n in "kind node revoked srvheld cliheld flags dead nrev".split()] + [("path", ctypes.c_char * 96)]
class KERN(ctypes.Structure):
    _fields_ = [(n, ctypes.c_int32) for n in "magic fg sigmode pend_rel pend_acq nofd nconn nnode".split()] + \
               [("vt", VT * 64), ("node", NODE * 64), ("ofd", OFD * 8192)]

KINDS = {32769: "opened", 32770: "closed", 32771: "dev", 32772: "devclosed", 32773: "disable", 32774: "enable",
         32775: "pong", 32776: "switched", 32777: "disabled", 65535: "error"}
OKFLAGS = os.O_RDWR | os.O_NOFOLLOW | os.O_CLOEXEC | os.O_NONBLOCK

_root = None
def fsroot():
    """One read-only tree per process is enough."""
    global _root
    if _root is None:
        _root = scratch("svroot.")
        fsdata.build_root(_root)
        import atexit
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_root, ignore_errors=True))
    return _root

def decode(buf):
    """complete messages at the front of buf; returns (list, rest)"""
    out = []
    while len(buf) >= 4:
        op, n = struct.unpack_from("<HH", buf)
        if len(buf) < 4 + n: break
        p, buf = buf[4:4 + n], buf[4 + n:]
        k = KINDS.get(op, "unk%d" % op)
        m = {"k": k}
        if k in ("error", "dev"):
            v = struct.unpack("<i", p)[0] if n == 4 else -99999
            m["e" if k == "error" else "id"] = v
        elif k == "opened":
            m["n"] = p[2:-1].decode("latin1") if n >= 3 and struct.unpack_from("<H", p)[0] == n - 2 and p[-1] == 0 else "bad"
        elif n: m["k"] = "bad"
        out.append(m)
    return out, buf

# what the process that starts the server did about signals: nothing, blocked them, ignored them
SIGS = (signal.SIGUSR1, signal.SIGUSR2, signal.SIGINT, signal.SIGTERM)
def _block(): signal.pthread_sigmask(signal.SIG_BLOCK, SIGS)
def _ignore():
    for x in SIGS: signal.signal(x, signal.SIG_IGN)
INHERIT = [None, _block, _ignore]

class Client:
    __slots__ = ("s", "buf", "fds", "gotfds", "eof", "dead")
    def __init__(self, s):
        self.s, self.buf, self.fds, self.gotfds, self.eof, self.dead = s, b"", [], [], False, False

class Server:
    def __init__(self, bdir, vtb=True, fg=1, imm=False, log=True, exe=None, extra_env=None, sig=0, lev="silent"):
        env, pfd = self.world(bdir, vtb, fg, imm, log)
        if extra_env: env.update(extra_env)
        self.p = subprocess.Popen([exe or bdir + "/m/seatd", "-l", lev], cwd=self.dir, env=env, pass_fds=(pfd,),
                                  stdin=subprocess.DEVNULL, stdout=self.errf, stderr=self.errf, preexec_fn=INHERIT[sig])
        os.close(pfd)
        self._wait()
        self.base = sorted(x for x in self.census if x[0] in "spx")

    def world(self, bdir, vtb, fg, imm, log):
        """the machine the server will see; returns the environment of its process and the descriptor it is controlled by"""
        self.dir = scratch("sv.")
        self.map = self.dir + "/kern"
        with open(self.map, "wb") as f: f.truncate(ctypes.sizeof(KERN))
        self.f = open(self.map, "r+b")
        self.mm = mmap.mmap(self.f.fileno(), ctypes.sizeof(KERN))
        self.k = KERN.from_buffer(self.mm)
        for i in range(64):
            self.k.vt[i].newvt = -1
            self.k.vt[i].kb = 3
            self.k.node[i].master = -1
        self.k.fg = fg
        self.k.sigmode = 1 if imm else 0
        self.ctl, peer = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        self.ctl.settimeout(20)
        # keep the control socket out of the way of the descriptors under test
        import fcntl as F
        pfd = F.fcntl(peer.fileno(), F.F_DUPFD, 800)
        peer.close()
        self.logpath = self.dir + "/log" if log else None
        env = {"PATH": "/usr/bin:/bin", "LD_PRELOAD": bdir + "/shim.so", "SHIM_MAP": self.map, "SHIM_ROOT": fsroot(),
               "SHIM_CTL": str(pfd), "SEATD_VTBOUND": "1" if vtb else "0", "MALLOC_PERTURB_": "165"}
        if log: env["SHIM_LOG"] = self.logpath
        self.errf = open(self.dir + "/err", "wb")
        self.cl = []
        self.logpos = 0
        self.logf = None
        self.alive = "idle"
        self.npolls = 0
        self.census = []
        self.base = None
        self.streams = {}
        return env, pfd

    def _wait(self):
        try:
            b = self.ctl.recv(65536)
        except socket.timeout:
            self.alive = "hang"; self.p.kill(); self.p.wait(); self.census = []; return
        except OSError:
            b = b""
        if not b:
            r = self.p.wait()
            self.alive = "exit%d" % r if r >= 0 else "sig%d" % -r
            self.census = []
            return
        w = b.decode().split()
        self.alive, self.npolls, self.census = w[0], int(w[1]), w[2:]

    def go(self, cmds):
        if self.alive.startswith(("exit", "sig", "hang")): return
        try: self.ctl.send(";".join(cmds + ["go"]).encode())
        except OSError: pass
        self._wait()

    # ---- actions
    def connect(self):
        s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        try:
            s.connect(self.dir + "/seatd.sock")
            s.setblocking(False)
            self.cl.append(Client(s))
        except OSError:
            c = Client(None); c.eof = c.dead = True
            self.cl.append(c)

    def send(self, c, b, nf=0):
        if self.cl[c].s is None: return
        anc = []
        if nf:
            n = os.open("/dev/null", os.O_RDONLY)
            anc = [(socket.SOL_SOCKET, socket.SCM_RIGHTS, array.array("i", [n] * nf))]
        try: self.cl[c].s.sendmsg([bytes(b)], anc, socket.MSG_NOSIGNAL)
        except OSError: pass
        if nf: os.close(n)

    def drop_fd(self, fd, o):
        os.close(fd)
        if o >= 0:
            self.k.ofd[o].cliheld -= 1
            self.check_dead(o)

    def check_dead(self, o):
        x = self.k.ofd[o]
        if x.srvheld == 0 and x.cliheld == 0 and not x.dead:
            x.dead = 1
            if x.node >= 0 and self.k.node[x.node].master == o: self.k.node[x.node].master = -1

    def close(self, c):
        cl = self.cl[c]
        for fd, o in cl.fds: self.drop_fd(fd, o)
        cl.fds = []
        if cl.s: cl.s.close()
        cl.s = None

    def closefd(self, o):
        for cl in self.cl:
            for i, (fd, oo) in enumerate(cl.fds):
                if oo == o:
                    cl.fds.pop(i)
                    self.drop_fd(fd, o)
                    return

    def act(self, a, cmds):
        t = a["a"]
        if t == "connect": self.connect()
        elif t == "send": self.send(a["c"] - 1, a["b"], a.get("nf", 0))
        elif t == "close": self.close(a["c"] - 1)
        elif t == "shut":
            if self.cl[a["c"] - 1].s:
                try: self.cl[a["c"] - 1].s.shutdown(socket.SHUT_WR)
                except OSError: pass
        elif t == "closefd": self.closefd(a["o"] - 1)
        elif t == "chvt": cmds.append("chvt %d" % a["v"])
        elif t == "deliver":
            # commands run in order, so look at what will be pending then
            self._flushcmds(cmds)
            w = "late" if a.get("late") else "deliver"
            if a["rel"] and self.k.pend_rel: cmds.append("%s %d" % (w, signal.SIGUSR1))
            if a["acq"] and self.k.pend_acq: cmds.append("%s %d" % (w, signal.SIGUSR2))
        elif t == "spurious":
            if a["rel"]: cmds.append("raise %d" % signal.SIGUSR1)
            if a["acq"]: cmds.append("raise %d" % signal.SIGUSR2)
        elif t == "term":
            if a.get("hook"): cmds.append("armsig %s %d %d" % (a["hook"], a.get("n", 1), a.get("sig", 15)))
            elif a.get("late"): cmds.append("late %d" % a.get("sig", 15))
            else: cmds.append("raise %d" % a.get("sig", 15))
        elif t == "budget": cmds.append("budget %d %d" % (a["c"] - 1, a["n"]))
        elif t == "imm": cmds.append("sigmode %d" % (1 if a["on"] else 0))
        elif t == "ext": cmds.append("ext %s %d" % (a["p"], 1 if a["on"] else 0))
        elif t == "fopen": cmds.append("fault open 0 1 %d" % a["e"])
        elif t == "fdup": cmds.append("fault dup 0 1 %d" % a["e"])
        elif t == "falloc": cmds.append("fault alloc %d 1 12" % a["k"])
        elif t == "ftty": cmds.append("fault tty 0 1000 24")
        elif t == "fpoll": cmds.append("fault poll 0 1 12")
        elif t == "noise": cmds.append("fault %s %d %d %d" % (a["h"], a.get("skip", 0), a.get("n", 1), a["e"]))

    def _flushcmds(self, cmds):
        # "chvt" earlier in the same step decides what is pending: apply now without resuming
        if cmds:
            self.ctl.send((";".join(cmds) + ";sync").encode())
            self._wait()
            del cmds[:]

    def step(self, acts):
        cmds = []
        for a in acts: self.act(a, cmds)
        self.go(cmds)
        if any(a["a"] == "term" and a.get("hook") for a in acts) and self.alive == "idle":
            self.go(["clearfaults", "raise %d" % [a.get("sig", 15) for a in acts if a["a"] == "term"][0]])   # the hook was never reached
        return self.observe()

    # ---- observation
    def _recv(self, cl):
        """everything available; appends to buf, fds"""
        while cl.s is not None and not cl.eof:
            try: data, anc, fl, _ = cl.s.recvmsg(65536, 4096)
            except BlockingIOError: return
            except OSError: cl.eof = True; return
            if not data: cl.eof = True; return
            cl.buf += data
            for lv, ty, d in anc:
                if lv == socket.SOL_SOCKET and ty == socket.SCM_RIGHTS:
                    for fd in array.array("i", d[:len(d) // 4 * 4]):
                        try: n = os.readlink("/proc/self/fd/%d" % fd)
                        except OSError: n = ""
                        o = int(n[10:].split()[0]) if n.startswith("/memfd:ofd") else -1
                        cl.fds.append((fd, o)); cl.gotfds.append(o + 1)

    def events(self):
        if not self.logpath: return []
        if self.logf is None:
            try: self.logf = open(self.logpath, "rb")
            except OSError: return []
        ev = []
        for line in self.logf.read().decode("latin1").splitlines():
            w = line.split()
            t = w[0]
            if t == "send":
                c = int(w[1])
                b = self.streams.get(c, b"") + (bytes.fromhex(w[2]) if w[2] != "-" else b"")
                ms, self.streams[c] = decode(b)
                for m in ms: ev.append({"t": "msg", "a": c + 1, "b": 0, "s": m["k"]})
                continue
            e = {"t": t, "a": 0, "b": 0, "s": ""}
            nums = w[1:]
            if t in ("revoke", "setm", "dropm"): e["a"], e["b"] = int(nums[0]) + 1, int(nums[1])
            elif t == "open": e["a"], e["b"], e["s"] = int(nums[0]) + 1, int(nums[1]), nums[2]
            elif t in ("setmode", "kd", "kb"): e["a"], e["b"] = int(nums[0]), int(nums[1])
            elif t == "reldisp": e["a"], e["b"], e["s"] = int(nums[0]), int(nums[1]), nums[2]
            elif t == "activate": e["a"], e["b"], e["s"] = int(nums[0]), int(nums[1]), nums[2]
            elif t == "fg": e["a"] = int(nums[0])
            elif t in ("closeofd", "closeconn", "accept"): e["a"] = int(nums[0]) + 1
            elif t == "badclose":
                e["a"] = int(nums[0])
                if e["a"] < 0: continue
            else: continue
            ev.append(e)
        return ev

    def observe(self):
        k = self.k
        m, eof = [], []
        for cl in self.cl:
            self._recv(cl)
            ms, cl.buf = decode(cl.buf)
            for x in ms:
                if x["k"] == "dev": x["o"] = cl.gotfds.pop(0) if cl.gotfds else -1
            m.append(ms)
            eof.append(2 if cl.s is None and not cl.dead else 1 if cl.eof else 0)
        o = {"m": m, "eof": eof, "xfd": [len(cl.gotfds) for cl in self.cl],
             "part": [len(cl.buf) for cl in self.cl]}
        o["fg"] = k.fg
        o["rel"] = 1 if k.pend_rel else 0
        o["acq"] = 1 if k.pend_acq else 0
        vt = []
        for v in range(1, NVT + 1):
            x = k.vt[v]
            mode = x.mode
            if mode == 1 and (x.relsig != signal.SIGUSR1 or x.acqsig != signal.SIGUSR2): mode = 9
            vt.append([mode, x.kd, {3: 1, 4: 0}.get(x.kb, 9), x.newvt])
        # any VT beyond the modelled ones must be untouched
        o["vt"] = vt
        o["vtx"] = sum(1 for v in list(range(NVT + 1, 64)) + [0] if (k.vt[v].mode, k.vt[v].kd, k.vt[v].kb, k.vt[v].newvt) != (0, 0, 3, -1))
        d = []
        for i in range(k.nofd):
            x = k.ofd[i]
            mast = 1 if x.node >= 0 and k.node[x.node].master == i else 0
            d.append([x.path.decode(), 1 if x.revoked else 0, mast, 1 if x.srvheld > 0 else 0, x.cliheld,
                      1 if (x.flags & OKFLAGS) == OKFLAGS else 0])
        o["dev"] = d
        c = self.census
        o["conns"] = sorted(int(x[1:]) + 1 for x in c if x[0] == "c")
        o["ofds"] = sorted(int(x[1:].rstrip("!")) + 1 for x in c if x[0] == "o")
        o["leak"] = sum(1 for x in c if x[0] == "t")
        rest = sorted(x for x in c if x[0] in "spx")
        o["base"] = 1 if self.base is not None and all(x in rest for x in self.base) and all(x in self.base or x[0] == "x" for x in rest) else 0
        o["alien"] = len(rest) - len(self.base or [])        # descriptors clients attached to their messages
        o["alive"] = self.alive
        o["ev"] = self.events()
        o["sock"] = 1 if os.path.exists(self.dir + "/seatd.sock") else 0
        return o

    def stop(self):
        try: self.p.kill()
        except OSError: pass
        self.p.wait()
        for cl in self.cl:
            for fd, _ in cl.fds: os.close(fd)
            if cl.s: cl.s.close()
        self.ctl.close()
        if self.logf: self.logf.close()
        self.errf.close()
        del self.k
        self.mm.close(); self.f.close()
        shutil.rmtree(self.dir, ignore_errors=True)

def run_script(bdir, cfg, steps):
    """cfg: {vtb, fg, imm}; steps: list of lists of actions -> trace record"""
    s = Server(bdir, **{k: cfg[k] for k in ("vtb", "fg", "imm", "sig", "lev") if k in cfg})
    tr = {"vtb": bool(cfg.get("vtb", True)), "fg": cfg.get("fg", 1), "imm": bool(cfg.get("imm", False)), "steps": []}
    tr.update({k: cfg[k] for k in ("sig", "lev") if k in cfg})
    try:
        for acts in steps:
            o = s.step(acts)
            tr["steps"].append({"as": acts, "o": o})
            if not o["alive"] == "idle": break
    finally:
        s.stop()
    return tr

def resolve(a, o, sess, vtb):
    """an action of the model, naming connections and files by rank among those alive -> concrete action"""
    import seatdgen
    a = dict(a)
    live = [i + 1 for i, e in enumerate(o["eof"]) if not e] if o else []
    if a["a"] == "sw":
        if a["c"] > len(live) or a["k"] > len(live): return {"a": "noop"}
        return {"a": "send", "c": live[a["c"] - 1], "b": list(seatdgen.switch(sess.get(live[a["k"] - 1], 77))), "nf": 0}
    if "c" in a:
        if not 1 <= a["c"] <= len(live): return {"a": "noop"}
        a["c"] = live[a["c"] - 1]
    if a["a"] == "closefd":
        fs = [i + 1 for i, d in enumerate(o["dev"]) if d[3] or d[4]] if o else []
        if not 1 <= a["o"] <= len(fs): return {"a": "noop"}
        a["o"] = fs[a["o"] - 1]
    return a

def run_walk(bdir, cfg, acts):
    """acts: actions of the model, one per step"""
    s = Server(bdir, **cfg)
    tr = dict(cfg, steps=[])
    o, sess, n = None, {}, 0
    try:
        for a in acts:
            c = [resolve({k: v for k, v in a.items() if k != "tty"}, o, sess, cfg["vtb"])]
            if a.get("tty"): c.insert(0, {"a": "ftty"})
            o = s.step(c)
            tr["steps"].append({"as": c, "o": o})
            if o["alive"] != "idle": break
            for i, ms in enumerate(o["m"]):
                for m in ms:
                    if m["k"] == "opened": n += 1; sess[i + 1] = n
    finally:
        s.stop()
    return tr

def run_random(bdir, seed, prof):
    import random, seatdgen
    rng = random.Random(seed)
    g = seatdgen.Gen(rng, prof)
    s = Server(bdir, **g.cfg)
    tr = dict(g.cfg, steps=[])
    n = g.p["steps"]
    try:
        for i in range(n):
            acts = g.step(i == n - 1)
            o = s.step(acts)
            tr["steps"].append({"as": acts, "o": o})
            if o["alive"] != "idle": break
            g.learn(o)
    finally:
        s.stop()
    return tr
