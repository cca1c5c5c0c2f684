"""The virtual file tree the server under test sees, in one place.

Writes spec/FsData.tla (what each path a client may name resolves to) and builds
the scratch tree the harness resolves paths in.  The two are derived from the
same table; the oracle side (what resolution must give) is written out by hand
here and not computed by any resolver.
"""
import os, sys

E = dict(ENOENT=2, ENXIO=6, EACCES=13, EBUSY=16, ENODEV=19, ENOTDIR=20, EISDIR=21, ELOOP=40, ENAMETOOLONG=36)

# real nodes: canonical path -> errno its open fails with (0: opens)
NODES = {
    "/dev/input/event0": 0, "/dev/input/event1": 0, "/dev/input/event2": 0,
    "/dev/input/event31": 0, "/dev/input/event_fail": E["EACCES"], "/dev/input/event_gone": E["ENODEV"],
    "/dev/input/mice": 0, "/dev/input/js0": 0, "/dev/input/mouse0": 0,
    "/dev/dri/card0": 0, "/dev/dri/card1": 0, "/dev/dri/renderD128": 0, "/dev/dri/card_busy": E["EBUSY"],
    "/dev/dri/by-path/note": 0,
    "/dev/drifter": 0, "/dev/inputevent0": 0, "/dev/mem": 0, "/dev/sda": 0, "/dev/null2": 0, "/dev/uinput": 0,
    "/dev/hidraw0": 0, "/dev/fb0": 0, "/dev/snd/pcm0": 0,
    "/etc/shadow": 0, "/etc/input/event0": 0, "/home/u/card0": 0, "/dev/drm/card0": 0, "/dev/wskbd0": 0,
    "/xdev/dri/card0": 0, "/dev/DRI/card0": 0, "/dev/input2/event0": 0,
}
NODES.update({"/dev/input/eventm%03d" % i: 0 for i in range(140)})
DIRS = ["/dev/dri/sub", "/dev/input/eventdir", "/dev/empty", "/home/u/d"]
LINKS = {
    "/dev/input/by-id/kbd": "../event0",
    "/dev/input/by-id/abs": "/dev/input/event1",
    "/dev/input/by-id/chain": "kbd",
    "/dev/dri/by-path/gpu": "../card0",
    "/dev/dri/evil": "/etc/shadow",
    "/dev/dri/evil_rel": "../../etc/shadow",
    "/dev/input/event_evil": "/dev/mem",
    "/dev/input/event_evil2": "../sda",
    "/dev/input/event_todri": "/dev/dri/card1",
    "/dev/dri/card_toev": "/dev/input/event2",
    "/dev/dri/dangling": "/dev/dri/none",
    "/dev/dri/loop1": "loop2", "/dev/dri/loop2": "loop1",
    "/home/u/mycard": "/dev/dri/card0",
    "/home/u/myev": "/home/u/d2/event0", "/home/u/d2": "/dev/input",
    "/dev/dri/dirlink": "/etc", "/dev/gpu": "dri/card0", "/dev/dri/selfdir": ".",
}

LONG = "/dev/dri/" + "/" * 228 + "card0"          # 242 characters
LONG249 = "/dev/input/" + "/" * (249 - 11 - 6) + "event0"

# what a client may ask for: path -> (canonical or None, errno of resolution)
def _q():
    q = {}
    def ok(p, canon): q[p] = (canon, 0)
    def er(p, e): q[p] = (None, E[e])
    for n in NODES: ok(n, n)
    for d in DIRS: ok(d, d)
    ok("/dev/dri", "/dev/dri"); ok("/dev/input", "/dev/input"); ok("/", "/"); ok("/dev/dri/", "/dev/dri"); ok("/etc", "/etc")
    ok("/dev/input/by-id/kbd", "/dev/input/event0"); ok("/dev/input/by-id/abs", "/dev/input/event1")
    ok("/dev/input/by-id/chain", "/dev/input/event0"); ok("/dev/dri/by-path/gpu", "/dev/dri/card0")
    ok("/dev/dri/evil", "/etc/shadow"); ok("/dev/dri/evil_rel", "/etc/shadow")
    ok("/dev/input/event_evil", "/dev/mem"); ok("/dev/input/event_evil2", "/dev/sda")
    ok("/dev/input/event_todri", "/dev/dri/card1"); ok("/dev/dri/card_toev", "/dev/input/event2")
    er("/dev/dri/dangling", "ENOENT"); er("/dev/dri/loop1", "ELOOP")
    ok("/home/u/mycard", "/dev/dri/card0"); ok("/home/u/myev", "/dev/input/event0")
    ok("/dev/dri/dirlink", "/etc"); ok("/dev/dri/dirlink/shadow", "/etc/shadow"); ok("/dev/gpu", "/dev/dri/card0")
    ok("/dev/dri/dirlink/input/event0", "/etc/input/event0"); ok("/dev/dri/selfdir/card0", "/dev/dri/card0")
    ok("/dev/dri/../input/event1", "/dev/input/event1"); ok("/dev/dri/../../etc/shadow", "/etc/shadow")
    ok("/dev/input/../dri/./card1", "/dev/dri/card1"); ok("//dev///dri//card0", "/dev/dri/card0")
    ok("/dev/dri/../mem", "/dev/mem"); ok("/dev/input/event0/../mice", None) if False else er("/dev/input/event0/../mice", "ENOTDIR")
    ok("/../dev/dri/card0", "/dev/dri/card0"); er("/dev/dri/card0/", "ENOTDIR"); er("/dev/dri/card0/x", "ENOTDIR")
    er("/dev/dri/card7", "ENOENT"); er("/dev/input/event77", "ENOENT"); er("/dev/dri/nodir/../card0", "ENOENT")
    er("", "ENOENT"); er("dev/dri/card0", "ENOENT"); er("card0", "ENOENT"); er("../dev/dri/card0", "ENOENT")
    er("/dev/input/event", "ENOENT"); er("/dev/dri/card", "ENOENT"); er("/nope/dev/dri/card0", "ENOENT")
    er(" /dev/dri/card0", "ENOENT"); er("/dev/dri/card0 ", "ENOENT")
    ok(LONG, "/dev/dri/card0"); ok(LONG249, "/dev/input/event0")
    for n in range(200, 252): ok("/dev/dri/" + "/" * (n - 15) + "card0", "/dev/dri/card0")
    ok("/dev/tty1", "/dev/tty1"); ok("/dev/tty0", "/dev/tty0")
    return q
QUERIES = _q()

def kind(canon):
    if canon is None: return "none"
    if canon.startswith("/dev/input/event"): return "evdev"
    if canon.startswith("/dev/dri/card"): return "card"
    if canon.startswith("/dev/dri/"): return "drm"
    return "bad"

def openerr(canon):
    if canon is None: return 0
    if canon in NODES: return NODES[canon]
    if canon.startswith("/dev/tty"): return 0
    return E["EISDIR"]

def build_root(root):
    for n, e in NODES.items():
        os.makedirs(os.path.dirname(root + n), exist_ok=True)
        with open(root + n, "w") as f:
            if e: f.write("errno=%d\n" % e)
    for d in DIRS: os.makedirs(root + d, exist_ok=True)
    for l, t in LINKS.items():
        os.makedirs(os.path.dirname(root + l), exist_ok=True)
        if os.path.lexists(root + l): os.unlink(root + l)
        os.symlink(t, root + l)

def tla():
    o = ["---- MODULE FsData ----",
         "\\* Generated by lib/fsdata.py: the file tree of the modelled machine.",
         "EXTENDS Integers, Sequences", "",
         "\\* name asked for (bytes without the terminating NUL) -> canonical path, its class,",
         "\\* the error of resolving it and the error of opening it",
         "FsTable == <<"]
    rows = []
    for p, (c, e) in QUERIES.items():
        rows.append('  [b |-> <<%s>>, p |-> "%s", k |-> "%s", e |-> %d, oe |-> %d]' % (
            ", ".join(str(x) for x in p.encode()), c or "", kind(c), e, openerr(c)))
    o.append(",\n".join(rows))
    o += [">>", "===="]
    return "\n".join(o) + "\n"

if __name__ == "__main__":
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../spec/FsData.tla")
    t = tla()
    if not os.path.exists(p) or open(p).read() != t: open(p, "w").write(t)
