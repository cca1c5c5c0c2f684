"""Random environment behaviour for the real server, steered by what the clients have been told."""
import random, struct
import fsdata

def msg(op, p=b""): return struct.pack("<HH", op, len(p)) + p
OPEN, CLOSE, ACK, PING = msg(1), msg(2), msg(5), msg(7)
def opendev(p):
    b = p.encode() + b"\0"
    return msg(3, struct.pack("<H", len(b)) + b)
def closedev(i): return msg(4, struct.pack("<i", i))
def switch(n): return msg(6, struct.pack("<i", n))

class View:
    """what client c knows"""
    def __init__(self):
        self.ph, self.sess, self.ids, self.dead, self.part, self.slow = "idle", 0, [], False, b"", False

DEFAULT = dict(vtb=None, imm=None, conns=6, live=4, steps=40, multi=0.35, pipeline=0.2, seg=0.08, garbage=0.03, fds=0.02,
               slow=0.0, sig_late=0.1, spurious=0.02, term=0.02, latehook=0.0, faults=0.0, falloc=0.0, ftty=0.0, ext=0.0, noise=0.0, burst=0.0, burstmix=0.2, paths="few", vts=(1, 2, 3),
               w=dict(connect=3, openseat=10, opendev=8, closedev=5, ack=10, switch=5, closeseat=1.5, ping=1.5, close=1.5, shut=0.4,
                      chvt=4, deliver=9, closefd=1.0, idle=0))

FEW = ["/dev/dri/card0", "/dev/input/event0"]
SOME = ["/dev/dri/card0", "/dev/dri/card1", "/dev/input/event0", "/dev/input/event1", "/dev/input/event2", "/dev/dri/renderD128",
        "/dev/input/by-id/kbd", "/dev/dri/by-path/gpu", "/dev/gpu", "/dev/dri/../input/event1"]
BADP = ["/dev/input/mice", "/etc/shadow", "/dev/dri/evil", "/dev/input/event_fail", "/dev/dri/card_busy", "/nope", "/dev/dri/loop1", ""]
ALL = list(fsdata.QUERIES)

class Gen:
    def __init__(self, rng, prof):
        self.r = rng
        self.p = dict(DEFAULT); self.p.update({k: v for k, v in prof.items() if k != "w"})
        self.w = dict(DEFAULT["w"]); self.w.update(prof.get("w", {}))
        self.vtb = self.p["vtb"] if self.p["vtb"] is not None else rng.random() < 0.6
        self.imm = self.p["imm"] if self.p["imm"] is not None else rng.random() < 0.3
        self.cfg = {"vtb": self.vtb, "fg": rng.choice([1, 1, 1, 2]), "imm": self.imm, "sig": rng.choice([0] * 5 + [1, 2]), "lev": rng.choice(["silent", "silent", "error", "info", "debug"])}
        self.cl = []
        self.fg = self.cfg["fg"]
        self.pend = (0, 0)
        self.nsess = 0
        self.used = set()
        self.seen = 0
        self.known = 0
        self.ended = False

    # ---- learn from an observation
    def learn(self, o):
        for c, v in enumerate(self.cl):
            for m in o["m"][c] if c < len(o["m"]) else []:
                k = m["k"]
                if k == "opened": v.ph = "new"; self.nsess += 1; v.sess = self.fgat if self.vtb else self.nsess
                elif k == "enable": v.ph = "active"
                elif k == "disable": v.ph = "pend"
                elif k == "disabled": v.ph = "dis"
                elif k == "closed": v.ph = "closed"
                elif k == "dev": v.ids.append(m["id"])
            if c < len(o["eof"]) and o["eof"][c]: v.dead = True
        self.known = len(o["m"])
        self.fg = o["fg"]; self.pend = (o["rel"], o["acq"])
        self.ofds = [i + 1 for i, d in enumerate(o["dev"]) if d[4] > 0]

    def live(self, *ph): return [c for c, v in enumerate(self.cl) if not v.dead and (not ph or v.ph in ph)]

    def live_seen(self): return [c for c in self.live() if c < self.known]

    def path(self):
        r = self.r; s = self.p["paths"]
        if s == "few": return r.choice(FEW) if r.random() < 0.95 else r.choice(BADP)
        if s == "some": return r.choice(SOME) if r.random() < 0.85 else r.choice(BADP)
        if s == "all": return r.choice(ALL) if r.random() < 0.7 else r.choice(SOME)
        if s == "many":        # most of them one after the other, to get past the limit
            self.nth = getattr(self, "nth", -1) + 1
            return "/dev/input/eventm%03d" % (self.nth % 140 if r.random() < .9 else r.randrange(140))
        return s

    def request(self, c):
        """one request for client c, mostly sensible"""
        r, v = self.r, self.cl[c]
        if r.random() < (0.08 if self.p["paths"] != "many" else 0.002):
            return r.choice([OPEN, CLOSE, ACK, PING, switch(r.choice([-1, 0, 1, 2, 3, 99, 2 ** 31 - 1, -2 ** 31])), closedev(r.choice([-1, 0, 1, 2, 7, 2 ** 31 - 1])),
                             opendev(self.path())])
        if v.ph in ("idle",): return OPEN if r.random() < 0.9 else PING
        ks, ws = [], []
        def add(k):
            ks.append(k); ws.append(self.w[k])
        add("ping"); add("closeseat"); add("closedev")
        if v.ph == "active": add("opendev"); add("switch")
        if v.ph == "pend": add("ack")
        k = r.choices(ks, ws)[0]
        if k == "ping": return PING
        if k == "closeseat": return CLOSE
        if k == "ack": return ACK
        if k == "opendev": return opendev(self.path())
        if k == "closedev":
            if v.ids and r.random() < 0.9: return closedev(r.choice(v.ids[-6:]))
            return closedev(r.choice([-1, 0, 1, 2, 3, 4, 5, 128, 2 ** 31 - 1, -2 ** 31, 65536, 257]))
        if k == "switch":
            x = r.random()
            if x < 0.75:
                return switch(r.choice(list(self.p["vts"]) if self.vtb else [w.sess for w in self.cl if w.sess] or [1]))
            return switch(r.choice([-1, 0, 1, 2, 3, 4, 64, 77, 65537, 2 ** 31 - 1, -2 ** 31]))

    def valid(self):
        r = self.r
        return r.choice([OPEN, CLOSE, ACK, PING, PING, switch(r.choice([1, 2])), closedev(1), opendev("/dev/input/event0")])

    def badbytes(self):
        r = self.r
        x = r.randrange(13)
        if x == 9:    # a path message that covers more than its path, the rest looking like messages
            p = r.choice([b"/dev/dri/card0\0", b"/dev/input/event0\0", b"\0"]); t = self.valid()
            return struct.pack("<HHH", 3, 2 + len(p) + len(t), len(p)) + p + t
        if x == 10:   # a message of fixed size that covers more, the rest looking like messages
            o, p = r.choice([(1, b""), (2, b""), (5, b""), (7, b""), (4, struct.pack("<i", 1)), (6, struct.pack("<i", 2))]); t = self.valid()
            return struct.pack("<HH", o, len(p) + len(t)) + p + t
        if x == 11:   # a message shorter than its kind needs, followed by messages that would complete it
            o, p = r.choice([(4, struct.pack("<i", r.choice([1, 2]))), (6, struct.pack("<i", r.choice([1, 2]))), (3, struct.pack("<H", 15) + b"/dev/dri/card0\0")])
            n = r.randrange(len(p))
            return struct.pack("<HH", o, n) + p[:r.choice([n, len(p)])] + self.valid()
        if x == 12:   # lengths at the limits
            p = r.choice([fsdata.LONG249, fsdata.LONG249, "/" * 244 + "/nope", "", "/", "/d", "x" * 249]).encode() + b"\0"
            k = r.choice([0, 0, 0, -1, 1])
            return struct.pack("<HHH", 3, 2 + len(p), len(p) + k) + p + r.choice([b"", PING])
        if x == 0: return bytes(r.randrange(256) for _ in range(r.choice([1, 2, 3, 4, 5, 8, 16, 64, 255, 256, 300, 700])))
        if x == 1: return struct.pack("<HH", r.choice([0, 8, 9, 255, 32769, 32773, 32774, 65535, 1 << 15]), 0)
        if x == 2: return struct.pack("<HH", r.choice([1, 2, 5, 7]), r.choice([1, 4, 252, 253, 65535])) + b"\1\2\3\4"
        if x == 3: return struct.pack("<HH", r.choice([4, 6]), r.choice([0, 3, 5, 8])) + b"\1\0\0\0\0\0\0\0"
        if x == 4:   # path length field wrong
            p = b"/dev/dri/card0\0"
            return struct.pack("<HHH", 3, 2 + len(p), r.choice([0, 1, len(p) - 1, len(p) + 1, 250, 251, 65535])) + p
        if x == 5:   # missing NUL / embedded NUL
            p = r.choice([b"/dev/dri/card0", b"/dev/dri/card0\0x\0", b"/dev/input/event0\0\0", b"\0/dev/dri/card0\0"])
            return struct.pack("<HHH", 3, 2 + len(p), len(p)) + p
        if x == 6:   # very long
            n = r.choice([248, 249, 250, 251, 252])
            p = b"/dev/dri/" + b"/" * (n - 9 - 6) + b"card0\0"
            return struct.pack("<HHH", 3, 2 + len(p), len(p)) + p
        if x == 7: return struct.pack("<HH", 3, r.choice([0, 1, 2, 3])) + b"\1\0\0"
        return struct.pack("<HH", 7, 65535)

    def data(self, c):
        r, p = self.r, self.p
        v = self.cl[c]
        if p["burst"] and r.random() < p["burst"]:
            n = r.choice([20, 31, 32, 33, 40, 63, 64, 65, 100, 128, 129, 150, 200]); b = b""
            while len(b) < 4 * n: b += self.request(c) if r.random() < p["burstmix"] else PING
            return b
        if v.part:
            if r.random() < 0.8:
                b, v.part = v.part, b""
                if r.random() < 0.3: b += self.request(c)
                return b
        if r.random() < p["garbage"]: return self.badbytes()
        b = self.request(c)
        while r.random() < p["pipeline"] and len(b) < 900: b += self.request(c)
        if r.random() < p["seg"] and len(b) > 1:
            k = r.randrange(1, len(b))
            b, v.part = b[:k], b[k:]
        return b

    def one(self):
        r, p, w = self.r, self.p, self.w
        ks, ws = [], []
        def add(k, x):
            if x > 0: ks.append(k); ws.append(x)
        L = self.live()
        if len(self.cl) < p["conns"] and len(L) < p["live"]: add("connect", w["connect"] * (4 if not L else 1))
        if L:
            add("send", 3 + w["opendev"] + w["closedev"])
            add("close", w["close"]); add("shut", w["shut"])
            if self.live("idle"): add("openseat", w["openseat"])
            if self.live("pend"): add("ack", w["ack"])
            if p["slow"] and self.live_seen(): add("budget", p["slow"] * 10)
        if getattr(self, "ofds", None): add("closefd", w["closefd"])
        if self.vtb:
            add("chvt", w["chvt"])
            if any(self.pend): add("deliver", w["deliver"] * 2)
            add("spurious", p["spurious"] * 10)
        if p["ext"]: add("ext", p["ext"] * 10)
        if p["faults"]: add("fault", p["faults"] * 10)
        if p["noise"]: add("noise", p["noise"] * 10)
        if not ks: return {"a": "noop"}
        k = r.choices(ks, ws)[0]
        S = lambda c, b: {"a": "send", "c": c + 1, "b": list(b), "nf": 0}
        if k == "connect": self.cl.append(View()); return {"a": "connect"}
        if k == "openseat": return S(r.choice(self.live("idle")), OPEN)
        if k == "ack": return S(r.choice(self.live("pend")), ACK)
        if k == "send":
            a = self.live("active")
            c = r.choice(a) if a and r.random() < 0.6 else r.choice(L)
            return S(c, self.data(c))
        if k == "close": c = r.choice(L); self.cl[c].dead = True; return {"a": "close", "c": c + 1}
        if k == "shut": return {"a": "shut", "c": r.choice(L) + 1}
        if k == "budget":
            c = r.choice(self.live_seen()); v = self.cl[c]
            if v.slow: v.slow = r.random() < 0.5; return {"a": "budget", "c": c + 1, "n": r.choice([0, 1, 3, 4, 7, 8, 40]) if v.slow else -1}
            v.slow = True; return {"a": "budget", "c": c + 1, "n": r.choice([0, 0, 0, 1, 2, 4, 5, 8, 12])}
        if k == "closefd": return {"a": "closefd", "o": r.choice(self.ofds)}
        if k == "chvt": return {"a": "chvt", "v": r.choice(p["vts"])}
        if k == "deliver":
            a = {"a": "deliver", "rel": bool(self.pend[0]) and r.random() < 0.8, "acq": bool(self.pend[1]) and r.random() < 0.8}
            if r.random() < p["sig_late"]: a["late"] = True
            return a
        if k == "spurious": return {"a": "spurious", "rel": r.random() < 0.5, "acq": r.random() < 0.5}
        if k == "ext": return {"a": "ext", "p": "/dev/dri/card0", "on": r.random() < 0.5}
        if k == "fault": return {"a": r.choice(["fopen", "fdup"]), "e": r.choice([2, 12, 13, 16, 19, 23, 24])}
        if k == "noise":
            h = r.choice(["recv", "send", "accept"])
            return {"a": "noise", "h": h, "skip": r.randrange(3), "n": 1, "e": 4}

    # ---- long histories: counters and numbers beyond what short runs reach
    def long(self):
        r, S = self.r, lambda c, *ms: {"a": "send", "c": c, "b": list(b"".join(ms)), "nf": 0}
        def new():
            self.cl.append(View()); return {"a": "connect"}
        kind = self.p["long"]
        if kind == "refs":      # one device opened many times
            yield [new()]
            yield [S(1, OPEN)]
            d, n, m = r.choice(FEW), r.choice([129, 140, 257, 260, 300]), r.choice([8, 12, 16])
            for k in range(0, n, m): yield [S(1, *[opendev(d)] * min(m, n - k))]
            yield [S(1, closedev(1))]
            for k in range(r.choice([3, 3, n // 9])): yield [S(1, *[closedev(1)] * r.choice([1, 2, 9]))]
            yield [S(1, opendev(d), opendev([x for x in FEW if x != d][0]))]
            for k in range(r.choice([0, n // 16])): yield [S(1, *[closedev(1)] * 16)]
        elif kind == "climb":   # handles that keep growing
            yield [new()]
            yield [S(1, OPEN)]
            n, m, D = r.choice([135, 262, 270]), r.choice([6, 9]), r.sample(SOME[:6], 3)
            i = 0
            while i < n:
                b = []
                for _ in range(m):
                    i += 1
                    b.append(opendev(D[i % 3]))
                    if i > 2: b.append(closedev(i - 2))
                yield [S(1, *b)]
            yield [S(1, closedev(i), closedev(i - 1), opendev(D[0]))]
            yield [S(1, opendev(D[1]), closedev(r.choice([0, 1, i & 255, i])))]
        elif kind == "clients": # clients come and go
            a = r.randrange(3)
            n = self.p["n"]
            for c in range(1, n + 1):
                yield [new()] if c != 2 or a else [new(), {"a": "close", "c": 1}]
                yield [S(c, OPEN)]
                if c > 3 and c < n - 2: yield [{"a": "close", "c": c}]
            yield [S(2, PING)]
            for k in range(4): yield [S(r.choice([1, 2, 3]), switch(r.choice([2, 3, n - 2, n - 1, n, n & 255, (n - 1) & 255]))) , S(r.choice([1, 2, 3]), ACK)]
        elif kind == "crowd":   # many at once
            n = self.p["n"]
            for c in range(1, n + 1): yield [new()]
            L = list(range(1, n + 1)); r.shuffle(L)
            for c in L[:n // 2]: yield [S(c, r.choice([OPEN, OPEN, PING]))]
            for c in L[:8]: yield [S(c, opendev(r.choice(FEW)), PING)]
            for c in L[:n // 3]: yield [{"a": "close", "c": c}]
            for c in L[n // 3:n // 3 + 12]: yield [S(c, OPEN)]
            for c in range(n + 1, n + 6): yield [new()]

    def step(self, last):
        r, p = self.r, self.p
        if p.get("long"):
            if self.seen == 0: self.it = self.long()
            self.seen += 1
            self.fgat = self.fg
            acts = next(self.it, None)
            if acts is None: self.ended = True; acts = [{"a": "term", "sig": 15}]
            return acts
        if last or (self.seen > 8 and r.random() < p["term"]):
            self.ended = True
            acts = []
            while r.random() < 0.4: acts.append(self.one())
            a = {"a": "term", "sig": r.choice([15, 2])}
            x = r.random()
            if x < p["latehook"]: a.update({"hook": r.choice(["recv", "ioctl", "send"]), "n": r.randrange(1, 5)})
            elif acts and x < 0.5: a["late"] = True
            acts.append(a)
            if len(acts) == 1 and r.random() < .12: acts = [{"a": "fpoll"}]
        else:
            acts = [self.one()]
            while r.random() < p["multi"] and len(acts) < 4: acts.append(self.one())
        acts = [a for a in acts if a]
        # descriptors in the stream: alone in their step
        if len(acts) == 1 and acts[0]["a"] == "send" and r.random() < p["fds"]: acts[0]["nf"] = r.choice([1, 1, 2, 5, 28])
        if len(acts) == 1 and r.random() < p["falloc"] and (acts[0]["a"] == "connect" or acts[0]["a"] == "send" and len(acts[0]["b"]) > 4 and acts[0]["b"][:2] == [3, 0] and
                                                            len(acts[0]["b"]) == 4 + acts[0]["b"][2] + 256 * acts[0]["b"][3]):
            acts.insert(0, {"a": "falloc", "k": r.choice([0, 1])})
        if self.vtb and acts and acts[0]["a"] not in ("falloc", "fpoll") and r.random() < p["ftty"]: acts.insert(0, {"a": "ftty"})
        self.fgat = self.fg
        self.seen += 1
        return acts
