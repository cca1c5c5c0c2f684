"""Random applications and login managers for the logind specification."""
CODES = [1, 2, 5, 13, 16, 19, 22, 110]
DEVS = ["/dev/null", "/dev/zero", "/dev/full", "/dev/urandom"]

def signal(rng):
    r = rng.random()
    if r < .3: return "A%d" % rng.randint(0, 1)
    if r < .5: return "I%d" % rng.randint(0, 1)
    if r < .68: return rng.choice("pppfg") + str(rng.randint(0, 4))
    if r < .78: return rng.choice(["u", "i", "ui", "r", "r", "n"])
    if r < .9:  # several things in one message
        return "".join(rng.choice(["A0", "A1", "u", "i", "I0", "I1"]) for _ in range(rng.randint(2, 5)))
    return rng.choice(["o", "q", "z"]) + rng.choice(["A0", "A1", "I0", "I1", "p1", "uA0", "f1"])

def signals(rng, lo=0):
    n = rng.choice([0, 0, 1, 1, 2, 3]) if lo == 0 else rng.choice([1, 1, 2, 3, 8])
    r = [signal(rng) for _ in range(n)]
    if rng.random() < .05: r.append(rng.choice(["ph", "ph", "pa", "pe", "pr"]))
    return r


def group(rng, bad=.15, sig=.4):
    pre = signals(rng) if rng.random() < sig else []
    post = signals(rng) if rng.random() < sig / 2 else []
    r = rng.random()
    o = "R" if r >= bad else "E%d" % rng.choice(CODES) if r < bad * .6 else "X" if r < bad * .85 else "H"
    return ".".join(pre + [o] + post)

def plan(rng, n, bad=.15, sig=.4): return [group(rng, bad, sig) for _ in range(n)]

def idle(rng):
    r = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        x = rng.random()
        r.append("i:eintr" if x < .07 else "i:H" if x < .12 else "i:" + ".".join(signals(rng, 1)))
    return r

def args(rng, c):
    if c == "open_device": return [rng.choice(DEVS) if rng.random() < .9 else rng.choice(["/nonexistent/x", "/dev/null/x", ""]) or "/"]
    if c == "close_device": return [rng.choice(["#0", "#1", "#2", "#5"]) if rng.random() < .88 else rng.choice([-1, 99, 250, -7])]
    if c == "switch_session": return [rng.choice([1, 2, 7, 0, -1, -5, 63, 2**31 - 1])]
    return []

def walk(rng, much=.02):
    ops = []
    env = [1, 1, 0, 0, 0, 1, 0]
    if rng.random() < .5:
        env = [rng.randint(0, 1), rng.choice([0, 1, 1, -6]), rng.choice([0, 0, -61, -2]), rng.choice([0, 0, -61]), rng.choice([0, 0, 0, -61, -6]), rng.randint(0, 1), rng.choice([0] * 9 + [111])]
    ops.append(["env"] + env)
    ops.append(["act", rng.randint(0, 1)])
    c = rng.random()
    if c < .4: ops.append(["oncb", "disable", "disable_seat"])
    elif c < .6: ops.append(["oncb", "disable", "close_device", "#0"])
    c = rng.random()
    if c < .3: ops.append(["oncb", "enable", "open_device", rng.choice(DEVS)])
    elif c < .45: ops.append(["oncb", "enable", "switch_session", "2"])
    if rng.random() < much:      # much at once, and long
        ops[0] = ["env", 1, 1, 0, 0, 0, 1, 0]
        many = lambda n: ".".join(rng.choice(["A0", "A1", "I0", "I1", "p1", "p2", "A%d" % (k % 2)]) for k in range(n))
        ops.append(["call", "open_seat", ";"])
        for _ in range(rng.choice([3, 12])):
            for _ in range(rng.choice([1, 5, 20])):
                c = rng.choice(["open_device", "close_device", "switch_session"])
                a = args(rng, c)
                if a[0] in (99, 250): a = [100000]
                ops.append(["call", c] + a + [";", ".".join([many(rng.choice([1, 1, 10, 70])), "R"])])
            ops.append(["srv", many(rng.choice([1, 40, 130]))])
            for _ in range(rng.choice([1, 2])): ops.append(["call", "dispatch", 0, ";"])
        ops.append(["call", "close_seat", ";"])
        return ops
    for _ in range(rng.choice([1, 1, 1, 2])):
        nice = rng.random() < .7
        ops.append(["call", "open_seat", ";"] + plan(rng, rng.randint(0, 9), 0 if nice else .2, rng.choice([0, .2, .5])))
        if not nice: ops += [["env", 1, 1, 0, 0, 0, 1, 0], ["call", "open_seat", ";"]]
        for _ in range(rng.randint(1, 25)):
            r = rng.random()
            if r < .25: ops.append(["srv", ".".join(signals(rng, 1))])
            elif r < .27: ops.append(["srv", "H"])
            elif r < .55: ops.append(["call", "dispatch", rng.choice([0, 0, 0, -1, 50]), ";"] + plan(rng, rng.randint(0, 3), .1) + idle(rng))
            elif r < .6: ops.append(["call", rng.choice(["get_fd", "seat_name"])])
            else:
                c = rng.choice(["open_device", "open_device", "close_device", "switch_session", "disable_seat"])
                ops.append(["call", c] + args(rng, c) + [";"] + plan(rng, rng.choice([0, 1, 1])))
        ops.append(["call", "close_seat", ";"] + plan(rng, rng.choice([0, 0, 1]), .2))
    return ops

CALL = {"open_null": ["open_device", "/dev/null"], "open_zero": ["open_device", "/dev/zero"], "open_none": ["open_device", "/nonexistent/x"],
        "close_device": ["close_device", "#0"], "close_bad": ["close_device", 99], "close_neg": ["close_device", -1],
        "switch_session": ["switch_session", 2], "switch_neg": ["switch_session", -1]}
CB = {k: ",".join(map(str, v)) for k, v in CALL.items()}
ENV = {"pid": [0, 0, 0, 0, 0, 0, 0], "disp": [0, 0, -61, 0, 0, 0, 0], "nodisp": [0, 0, -61, -2, 0, 0, 0], "noxdg": [1, -6, 0, 0, 0, 0, 0],
       "noseat": [1, 0, 0, 0, -61, 0, 0], "noconn": [1, 1, 0, 0, 0, 0, 111], "ok": [1, 1, 0, 0, 0, 0, 0], "typed": [1, 1, 0, 0, 0, 1, 0]}

def line(a):
    """the driver's line for an action of MCLogind"""
    if a["op"] == "srv": return ["srv", ".".join(a["ws"])]
    r = ["call"] + CALL.get(a["c"], [a["c"]])
    if a["c"] == "dispatch": r.append(a["v"])
    if a["c"] == "open_seat": r += ["env=" + ",".join(map(str, ENV[a["env"]]))]
    r.append(";")
    r += [".".join(g["pre"] + [g["out"]] + g["post"]) for g in a["plan"]]
    r += ["i:" + ".".join(w) for w in a["idle"]]
    return r
