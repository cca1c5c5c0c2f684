"""Random applications and servers for the libseat specification."""
import struct
S = 32768
def msg(op, body=b""): return struct.pack("<HH", op, len(body)) + body
EN, DIS, PONG = msg(S + 6), msg(S + 5), msg(S + 7)
def opened(name=b"seat0\0"): return msg(S + 1, struct.pack("<H", len(name)) + name)
REPLY = {"open_seat": S + 1, "close_seat": S + 2, "open_device": S + 3, "close_device": S + 4, "switch_session": S + 8, "disable_seat": S + 9}

def good(rng, c):
    if c == "open_seat":
        n = rng.choice([b"seat0\0", b"seat0\0", b"seat0", b"", b"x" * 63 + b"\0", b"x" * 63, b"s\0"])
        return opened(n), 0
    if c == "open_device": return msg(S + 3, struct.pack("<i", rng.choice([1, 2, 7, 300, 2**31 - 1]))), 1
    return msg(REPLY[c]), 0

def wrong(rng, c):
    k = rng.randint(0, 10)
    if k == 0: return msg(rng.choice([S + 1, S + 2, S + 4, S + 8, S + 9, 1, 0, 77, 65534])), 0
    if k == 1: return msg(REPLY[c], b"x" * rng.choice([1, 3, 5, 100])), 0
    if k == 2: return msg(65535, b"xx"), 0
    if k == 3: return msg(65535, b"\1\0\0\0\0\0"), 0
    if k == 4 and c == "open_device": return msg(S + 3, struct.pack("<i", 3)), 0          # descriptor missing
    if k == 5 and c == "open_seat": return rng.choice([opened(b"x" * 64), opened(b"x" * 65), opened(b"a\0b\0"), opened(b"\0\0"), msg(S + 1, b"\5\0ab\0"), msg(S + 1, b"\1"), msg(S + 1), opened(b"x" * 70 + b"\0")]), 0
    if k == 6: return struct.pack("<HH", rng.choice([REPLY[c], 65535, 9]), rng.choice([253, 300, 60000])) + b"z" * 300, 0
    if k == 7: return bytes(rng.randint(0, 255) for _ in range(4)) + b"q" * 255, 0
    if k == 8: return struct.pack("<HH", REPLY[c], 2), 0                                   # body never comes
    if k == 9: return msg(rng.choice([S + 5, S + 6, S + 7]), rng.choice([b"abcd", b"x", EN, DIS, PONG, good(rng, c)[0]])), 0     # no body belongs there
    return msg(rng.choice([S + 1, S + 2, S + 3, S + 4, S + 8, S + 9]), b"abcd"), 0

def events(rng, lo=0):
    n = rng.choice([0, 0, 1, 1, 2, 3, 5]) if lo == 0 else rng.choice([1, 1, 2, 3, 6, 70])
    return [rng.choice([EN, DIS, EN, DIS, PONG]) for _ in range(n)]

def cut(rng, parts):
    """parts: list of (bytes, nfds) -> segments; descriptors go with the first byte of their message"""
    style = rng.choice(["one", "msg", "bytes", "rand", "rand"])
    segs = []
    for b, nf in parts:
        if style == "msg" or not segs or nf: segs.append([b, nf])
        else: segs[-1][0] += b
    out = []
    for b, nf in segs:
        while b:
            n = {"one": len(b), "msg": len(b), "bytes": 1, "rand": rng.randint(1, 9)}[style]
            out.append(b[:n].hex() + ("+%d" % nf if nf else ""))
            b, nf = b[n:], 0
    return out[:100]

def plan(rng, c):
    """what the server does while the library waits for the reply to c"""
    parts = [(e, 0) for e in events(rng)]
    r = rng.random()
    if r < .62: parts.append(good(rng, c))
    elif r < .8: parts.append((msg(65535, struct.pack("<i", rng.choice([1, 2, 5, 13, 22, 16, 71]))), 0))
    elif r < .9: parts.append(wrong(rng, c))
    else: parts.append((b"", 0))
    if rng.random() < .4: parts += [(e, 0) for e in events(rng)]
    if rng.random() < .03: parts.append(wrong(rng, c))
    seg = cut(rng, [p for p in parts if p[0]])
    if r >= .9:
        if seg and rng.random() < .5: seg[-1] = seg[-1].split("+")[0][:2 * rng.randint(1, 3)]
        seg.append("hup")
    if rng.random() < .15: seg.insert(rng.randint(0, len(seg)), "eintr")
    if rng.random() < .1: seg += ["s:%d" % rng.choice([1, 2, 3, 5, -1]) for _ in range(rng.randint(1, 3))]
    if rng.random() < .01: seg.append("s:0")
    if rng.random() < .015: seg.insert(rng.randint(0, len(seg)), "perr")
    if rng.random() < .03: seg.append("oom:%d" % rng.choice([0, 0, 1, 2]))
    return seg

def args(rng, c):
    if c == "open_device": return [rng.choice(["/dev/dri/card0", "/dev/input/event3", "L1", "L0", "L100", "L248", "L249", "L250", "L251", "L254", "L300", "L5000", "L65540"])
                                   if rng.random() < .5 else "/dev/dri/card0"]
    if c == "close_device": return [rng.choice([1, 2, 7, 0, -1, 2**31 - 1, 300])]
    if c == "switch_session": return [rng.choice([1, 2, 7, 0, -1, -5, 63, 2**31 - 1, 70000])]
    return []

def long(rng):
    """many events in one call, between calls, and over time"""
    def evs(n): return b"".join(DIS if (k + o) % 2 else EN for k in range(n)) if rng.random() < .6 else b"".join(rng.choice([EN, DIS, EN, DIS, PONG]) for k in range(n))
    o = 0
    ops = [["call", "open_seat", ";", good(rng, "open_seat")[0].hex()]]
    for _ in range(rng.choice([3, 8, 15])):
        for _ in range(rng.choice([1, 1, 6])):
            c = rng.choice(["close_device", "switch_session", "disable_seat"])
            ops.append(["call", c] + ([3] if c != "disable_seat" else []) + [";"] + [evs(rng.choice([0, 3, 20, 60, 63, 64, 65, 130])).hex() or EN.hex() for _ in range(rng.choice([0, 1, 1, 5]))]
                       + [msg(65535, struct.pack("<i", 13)).hex() if rng.random() < .2 else good(rng, c)[0].hex()])
            o += 1
        for _ in range(rng.choice([0, 1, 2])): ops.append(["srv", evs(rng.choice([1, 40, 64, 100])).hex()])
        for _ in range(rng.choice([1, 4, 9])): ops.append(["call", "dispatch", 0, ";"])
    for n in range(rng.choice([1, 40, 140])):
        ops += [["call", "open_device", "/dev/dri/card0", ";", (EN if n % 3 == 0 else b"").hex() + (msg(S + 3, struct.pack("<i", n + 1))).hex() + "+1"], ["srv", PONG.hex()]]
        if n % 4 == 0: ops.append(["call", "dispatch", 0, ";"])
    ops.append(["call", "close_seat", ";", evs(rng.choice([0, 7, 64])).hex() + good(rng, "close_seat")[0].hex()])
    return ops

def walk(rng, much=.02):
    if rng.random() < much: return long(rng)
    ops = []
    conn = rng.random()
    if conn < .05: ops.append(["call", "open_seat", ";", "conn:%d" % rng.choice([2, 13, 111])])
    if rng.random() < .5: ops.append(["oncb", "disable", "disable_seat"])
    if rng.random() < .3:
        c = rng.choice(["open_device", "close_device", "switch_session", "seat_name"])
        ops.append(["oncb", "enable", c] + args(rng, c))
    nice = rng.random() < .6
    if nice:
        p = cut(rng, [(e, 0) for e in events(rng)] + [good(rng, "open_seat")] + [(e, 0) for e in events(rng)])
    else: p = plan(rng, "open_seat")
    ops.append(["call", "open_seat", ";"] + p)
    for _ in range(rng.randint(1, 30)):
        r = rng.random()
        if r < .22: ops.append(["srv"] + cut(rng, [(e, 0) for e in events(rng, 1)])[:1])
        elif r < .27: ops.append(["srv", PONG.hex()])
        elif r < .285: ops.append(["srv", rng.choice(["hup", wrong(rng, "close_device")[0].hex(), "0680", "06"])])
        elif r < .55:
            t = rng.choice([0, 0, 0, -1, 50])
            pl = cut(rng, [(e, 0) for e in events(rng, rng.randint(0, 1))]) + plan(rng, rng.choice(["disable_seat", "open_device"]))
            ops.append(["call", "dispatch", t, ";"] + pl)
        elif r < .6: ops.append(["call", rng.choice(["get_fd", "seat_name"])])
        else:
            c = rng.choice(["open_device", "open_device", "close_device", "switch_session", "disable_seat"])
            ops.append(["call", c] + args(rng, c) + [";"] + plan(rng, c))
    ops.append(["call", "close_seat", ";"] + plan(rng, "close_seat"))
    if rng.random() < .2:
        ops.append(["call", "open_seat", ";"] + cut(rng, [good(rng, "open_seat")]))
        ops.append(["call", "close_seat", ";"] + plan(rng, "close_seat"))
    return ops

def line(a):
    """the driver's line for an action of MCLibseat"""
    if a["op"] == "srv": return ["srv", "hup" if a["hup"] else bytes(a["b"]).hex()]
    if a["op"] == "oncb": return ["oncb", a["e"], a["c"]]
    r = ["call", a["c"]]
    if a["c"] == "open_device": r.append(bytes(a["p"]).decode())
    elif a["c"] in ("close_device", "switch_session", "dispatch"): r.append(a["v"])
    r.append(";")
    for s in a["plan"]:
        if s["k"] == "hup": r.append("hup")
        else: r.append(bytes(s["b"]).hex() + ("+%d" % s["nf"] if s["nf"] else ""))
    return r
