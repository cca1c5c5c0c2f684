"""Runs the real seatd's startup (and, in launch.py, seatd-launch) in scratch directories."""
import json, os, pwd, shutil, signal, socket, struct, subprocess, time, select
from concurrent.futures import ThreadPoolExecutor
from common import *

NFD = 9
def put(path, kind):
    d = os.path.dirname(path)
    rm(path)
    if kind == "sock": s = socket.socket(socket.AF_UNIX); s.bind(path); s.close()
    elif kind == "file": open(path, "w").write("precious\n")
    elif kind == "dir": os.mkdir(path)
    elif kind == "fifo": os.mkfifo(path)
    elif kind == "lnsock":
        if not os.path.lexists(d + "/real.sock"): s = socket.socket(socket.AF_UNIX); s.bind(d + "/real.sock"); s.close()
        os.symlink("real.sock", path)
    elif kind == "lnfile": open(d + "/real.file", "w").write("x"); os.symlink("real.file", path)
    elif kind == "lnnone": os.symlink("missing", path)
def rm(path):
    if os.path.islink(path) or os.path.exists(path):
        if os.path.isdir(path) and not os.path.islink(path): os.rmdir(path)
        else: os.unlink(path)
def ident(path):
    try: st = os.lstat(path)
    except OSError: return None
    return (st.st_ino, st.st_mode, st.st_uid, st.st_gid, st.st_size, st.st_ctime_ns)
def kind(path):
    import stat as S
    try: m = os.lstat(path).st_mode
    except OSError: return "none"
    return {S.S_IFSOCK: "sock", S.S_IFREG: "file", S.S_IFDIR: "dir", S.S_IFIFO: "fifo", S.S_IFLNK: "link"}.get(S.S_IFMT(m), "other")

def ping(path):
    s = socket.socket(socket.AF_UNIX)
    s.settimeout(10)
    try:
        s.connect(path); s.sendall(struct.pack("<HH", 7, 0))
        return s.recv(16) == struct.pack("<HH", 32768 + 7, 0)
    except OSError: return False
    finally: s.close()

def run_seatd(b, d, cfg):
    """one start of seatd in directory d; returns the log"""
    path = d + "/seatd.sock"
    log = d + "/log"
    if os.path.exists(log): os.unlink(log)
    argv = [b + "/m/seatd"]
    nfd = None
    for o in cfg["opts"]:
        argv.append("-" + o[0])
        if o[1] != "": argv.append(o[1])
        if o[0] == "n" and o[1] == str(NFD): nfd = NFD
    before = ident(path)
    env = {"PATH": "/usr/bin:/bin", "ST_LOG": log, "SEATD_VTBOUND": "0", "ST_NFD": str(NFD)}
    if cfg["fail"]["c"]: env["ST_FAIL"] = "%s:%d:%d" % (cfg["fail"]["c"], cfg["fail"]["n"], 13)
    if cfg["race"]: env["ST_RACE"] = "1"
    r, w = os.pipe2(os.O_CLOEXEC)
    p = subprocess.Popen([b + "/spawn", str(w), str(NFD), b + "/start_shim.so"] + argv,
                         cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, pass_fds=[w])
    os.close(w)
    def lines():
        try: return [json.loads(l) for l in open(log).read().split("\n") if l]
        except (OSError, ValueError): return []
    end, served, pong = time.time() + 20, False, False
    while p.poll() is None and time.time() < end:
        if any(e["t"] == "serve" for e in lines()): served = True; break
        time.sleep(.002)
    ev = []
    if served:
        ev.append({"t": "client", "ok": int(ping(path))})
        p.send_signal(signal.SIGTERM if cfg["end"] == "term" else signal.SIGINT if cfg["end"] == "int" else signal.SIGKILL)
    try: code = p.wait(timeout=20)
    except subprocess.TimeoutExpired: p.kill(); p.wait(); code = 999
    if code == -9 and cfg["end"] == "kill" and served: code = 0
    got = b""
    os.set_blocking(r, False)
    try:
        while True:
            x = os.read(r, 100)
            if not x: break
            got += x
    except OSError: pass
    os.close(r)
    ls = lines()
    after = ident(path)
    ev.append({"t": "exit", "code": code, "kind": kind(path), "same": int(after == before), "got": "".join("N" if c == 10 else "?" for c in got)})
    i = next((k for k, e in enumerate(ls) if e["t"] == "serve"), len(ls)) + 1
    return ls[:i] + ev[:-1] + ls[i:] + ev[-1:]

def run_walk(b, ops):
    d = scratch("st.")
    os.chmod(d, 0o755)
    obs = []
    try:
        for a in ops:
            if a["op"] == "put":
                put(d + "/seatd.sock", a["obj"]); obs.append({"log": []})
            else: obs.append({"log": run_seatd(b, d, a)})
    finally: shutil.rmtree(d, ignore_errors=True)
    return obs
