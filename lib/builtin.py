"""An application on the built-in backend and the server it forks, in lock step: the application (bi_drv)
does one library call at a time while the server runs whenever it has something to do."""
import ctypes, json, os, select, signal, subprocess, time
from common import *
from srv import *

libc = ctypes.CDLL(None, use_errno=True)
def subreaper(): libc.prctl(36, 1, 0, 0, 0)          # PR_SET_CHILD_SUBREAPER: orphaned servers come to us

class App(Server):
    def __init__(self, bdir, vtb, fg, imm, ack, sig, log=0):
        subreaper()
        env, pfd = self.world(bdir, vtb, fg, imm, True)
        env.update(SHIM_BUILTIN="1", LIBSEAT_BACKEND="builtin")
        self.p = subprocess.Popen([bdir + "/bi_drv", str(ack), str(sig), str(log)], cwd=self.dir, env=env, pass_fds=(pfd,),
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf)
        os.close(pfd)
        os.set_blocking(self.p.stdout.fileno(), False)
        self.out = b""
        self.apfd = os.pidfd_open(self.p.pid)
        self.kid = self.kfd = None
        self.alive, self.stopped = "none", False
        self.app, self.own0 = {}, []
        self.others = []
        self.ended = False
        self.dead = False                            # the application is gone

    # ---- the server
    def forked(self, pid):
        if self.kfd is not None: os.close(self.kfd)
        self.kid = pid
        try: self.kfd = os.pidfd_open(pid)
        except OSError: self.kfd = None
        self.alive, self.stopped, self.base, self.streams = "idle", False, None, {}

    def resume(self, cmds=()):
        self.stopped = False
        try: self.ctl.send(";".join(list(cmds) + ["go"]).encode())
        except OSError: pass

    def gone(self):
        """the server ended: so do its descriptors"""
        if self.dead:
            try: _, st = os.waitpid(self.kid, 0)
            except OSError: st = None
            r = None if st is None else os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)
        else:
            v = self.ask("wait", wait=True)
            r = None if v is None or v["v"] == -2 else -(v["v"] - 1000) if v["v"] >= 1000 else v["v"]
            if r is None and self.dead: return self.gone()
        self.alive = "lost" if r is None else "exit%d" % r if r >= 0 else "sig%d" % -r
        os.close(self.kfd); self.kfd = None
        self.kid, self.stopped, self.census = None, False, []
        for o in range(self.k.nofd):
            self.k.ofd[o].srvheld = 0
            self.check_dead(o)
        self.k.pend_rel = self.k.pend_acq = 0

    def died(self):
        """the application is gone"""
        self.p.wait()
        self.dead = True
        for o in range(self.k.nofd):
            self.k.ofd[o].cliheld = 0
            self.check_dead(o)

    # ---- the application
    def lines(self):
        try: b = os.read(self.p.stdout.fileno(), 65536)
        except BlockingIOError: return []
        self.out += b
        *ls, self.out = self.out.split(b"\n")
        return [json.loads(l) for l in ls]

    def ask(self, line, wait=False):
        """a question that concerns no server"""
        try: self.p.stdin.write((line + "\n").encode()); self.p.stdin.flush()
        except OSError: pass
        t = time.time() + 20
        while time.time() < t:
            select.select([self.p.stdout, self.apfd], [], [], 1)
            for r in self.lines():
                if "c" in r: return r
            if select.select([self.apfd], [], [], 0)[0]:
                for r in self.lines():
                    if "c" in r: return r
                self.died()
                return None
        return None

    def settle(self, line=None):
        """do a call (or none); afterwards the server has done all it can do"""
        res = None
        if line is not None:
            try: self.p.stdin.write((line + "\n").encode()); self.p.stdin.flush()
            except OSError: pass
        after = line is None                          # has the call returned?
        fresh = False                                 # was the server resumed since then?
        end = time.time() + 20
        while time.time() < end:
            if after and self.kfd is None: break
            if self.stopped:
                if after and fresh: break
                if after: fresh = True
                self.resume()
            fds = [] if self.ended else [self.ctl]
            if self.kfd is not None: fds.append(self.kfd)
            if not self.dead: fds += [self.p.stdout, self.apfd]
            ready = select.select(fds, [], [], 5)[0]
            if self.p.stdout in ready or self.apfd in ready:
                for r in self.lines():
                    if "kid" in r: self.forked(r["kid"])
                    elif "c" in r: res, after = r, True
                if not self.dead and select.select([self.apfd], [], [], 0)[0]:
                    for r in self.lines():
                        if "kid" in r: self.forked(r["kid"])
                    self.died()
                    after, fresh = True, False
            if self.ctl in ready:
                try: b = self.ctl.recv(65536)
                except OSError: b = b""
                if not b: self.ended = True; continue  # nobody is left at the other end
                w = b.decode().split()
                self.stopped, self.npolls, self.census = True, int(w[1]), w[2:]
                if self.base is None:
                    self.base = sorted(x for x in self.census if x[0] in "spx")
                    self.own0 = [x for x in self.census if x[0] == "o"]
                if w[0] != "idle": self.alive = w[0]; self.kill()
            if self.kfd is not None and self.kfd in ready:
                if not after and not self.dead and res is None:
                    # let the call return first: it may still have answers to read
                    t = time.time() + 20
                    while time.time() < t and res is None and not self.dead:
                        if not select.select([self.p.stdout, self.apfd], [], [], 5)[0]: break
                        for r in self.lines():
                            if "c" in r: res, after = r, True
                        if res is None and select.select([self.apfd], [], [], 0)[0]: self.died(); after = True
                    if not after: break
                self.gone()
        else:
            self.alive = "hang"
        if not after: self.alive = "hang"
        return res

    def kill(self):
        if self.kfd is not None:
            try: signal.pidfd_send_signal(self.kfd, signal.SIGKILL)
            except OSError: pass

    def send_env(self, e):
        """something happens to the machine or to the server"""
        t = e["a"]
        if t == "closefd":
            o = e["o"] - 1
            if not self.dead and 0 <= o < self.k.nofd and self.k.ofd[o].cliheld > 0:
                r = self.ask("closefd %d" % (o + 1))
                if r and r["v"] == 0:
                    self.k.ofd[o].cliheld -= 1
                    self.check_dead(o)
        elif self.kid is not None:
            cmds = []
            self.act(e, cmds)
            if cmds: self.resume(cmds)
            self.settle()
        elif t == "chvt" and not self.dead: self.chvt(e["v"])

    def free(self, v):
        x = self.k.vt[v]
        if x.mode == 1: x.mode, x.kd, x.kb, x.newvt = 0, 0, 3, -1

    def chvt(self, v):
        k = self.k
        x = k.vt[k.fg]
        if v == k.fg or (x.mode == 0 and x.kd == 1): return
        self.free(k.fg)
        k.fg = v
        self.free(v)

    def line(self, a):
        op = a["c"] if a["op"] == "die" else a["op"]
        if op == "open_device": return op + " " + (bytes(a["b"]).hex() or "-")
        if op == "dispatch": return "dispatch 0"
        if op in ("close_device", "switch_session"): return op + " %d" % a["n"]
        return op

    def do(self, a):
        op = a["op"]
        self.app = {}
        if self.dead: return
        if op == "env": self.send_env(a["e"])
        elif op == "killsrv":
            self.kill()
            if self.kid is not None: self.stopped = False; self.settle()     # (nobody would read a "go")
        elif op == "spawn":
            r = self.ask("spawn")
            if r: self.others.append(r["v"])
        elif op == "die":
            d = a["d"]
            if a["c"] == "none" and d >= 100:         # it just exits
                self.settle("quit %d" % (d - 100))
            else:
                if d // 10:
                    self.ask("die %d %d" % (d // 10, d % 10))
                    self.settle(self.line(a))
                if not self.dead:
                    self.p.kill()
                    self.settle_dead()
            if not self.dead: self.settle_dead()
        elif op == "noop": pass
        else: self.app = self.settle(self.line(a)) or {}
        if not self.dead and select.select([self.apfd], [], [], 0)[0]: self.settle_dead(); self.app = {"crash": 1}

    def settle_dead(self):
        self.died()
        if self.kid is not None: self.settle()

    def observe(self):
        o = Server.observe(self)
        o["app"] = self.app
        own = [int(x[1:].rstrip("!")) + 1 for x in self.own0]
        for x in own:
            if x in o["ofds"]: o["ofds"].remove(x)
        o["socks"] = sum(1 for x in self.base or [] if x[0] == "s")
        for x in ("m", "eof", "xfd", "part", "conns", "sock"): o.pop(x, None)
        if self.kid is not None: o["conns"] = sorted(int(x[1:]) + 1 for x in self.census if x[0] == "c")
        else: o["conns"] = []
        return o

    def step(self, a):
        self.do(a)
        return self.observe()

    def stop(self):
        self.kill()
        try: self.p.kill()
        except OSError: pass
        self.p.wait()
        if self.kid is not None:
            try: os.waitpid(self.kid, 0)
            except OSError: pass
        for p in self.others:
            try: os.kill(p, signal.SIGKILL)
            except OSError: pass
            try: os.waitpid(p, 0)
            except OSError: pass
        if self.kfd is not None: os.close(self.kfd)
        os.close(self.apfd)
        for f in (self.p.stdin, self.p.stdout):
            try: f.close()
            except OSError: pass
        self.ctl.close()
        if self.logf: self.logf.close()
        self.errf.close()
        del self.k
        self.mm.close(); self.f.close()
        shutil.rmtree(self.dir, ignore_errors=True)

def concrete(a, o):
    """an action of the model: files are named by rank among those alive, a death by call and moment"""
    a = dict(a)
    if a["op"] == "die":
        if a["c"] in ("none", "open_seat"): a["d"] = a["how"] if a["c"] == "none" else a["n"] * 10 + a["how"]
        else: a["d"], a["n"] = a["how"] % 100, a["how"] // 100
    if a["op"] == "env" and a["e"]["a"] == "closefd":
        fs = [i + 1 for i, d in enumerate(o["dev"]) if d[3] or d[4]] if o else []
        r = a["e"]["o"]
        a["e"] = dict(a["e"], o=fs[r - 1] if 1 <= r <= len(fs) else 99)
    return a

def run(bdir, meta, acts, script=False):
    """acts: actions of the model -> trace record"""
    s = App(bdir, meta["vtb"], meta["fg"], meta["imm"], int(meta["ack"]), meta["sig"], meta.get("log", 0))
    tr, o = dict(meta, steps=[]), None
    try:
        for a in acts:
            c = a if script else concrete(a, o)
            o = s.step(c)
            tr["steps"].append({"a": c, "o": o})
            if o["alive"] in ("hang", "spin", "lost") or "crash" in o["app"] or s.dead: break
    finally:
        s.stop()
    return tr
