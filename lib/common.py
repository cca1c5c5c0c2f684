"""Paths, building the code under test, small helpers."""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SEATD_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", VERIF + "/.work")
SPEC = VERIF + "/spec"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
NPROC = min(8, os.cpu_count() or 4)
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

def tree_hash():
    h = hashlib.sha256()
    for base in ["common", "seatd", "seatd-launch", "libseat", "include", "examples", "tests", "man",
                 "contrib", "meson.build", "meson_options.txt"]:
        p = os.path.join(REPO, base)
        if os.path.isfile(p):
            fs = [p]
        else:
            fs = sorted(os.path.join(d, f) for d, _, ff in os.walk(p) for f in ff)
        for f in fs:
            h.update(os.path.relpath(f, REPO).encode() + b"\0")
            with open(f, "rb") as fh: h.update(hashlib.sha256(fh.read()).digest())
    for f in sorted(os.listdir(VERIF + "/harness")):
        with open(VERIF + "/harness/" + f, "rb") as fh: h.update(fh.read())
    return h.hexdigest()[:16]

class Lock:
    def __init__(self, path): self.path = path
    def __enter__(self):
        os.makedirs(os.path.dirname(self.path), exist_ok=True)
        self.f = open(self.path, "w"); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

class BuildError(Exception): pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0: raise BuildError("%s\n%s" % (cmd, r.stdout[-6000:]))
    return r.stdout

# test drivers and the sources of the component each is linked with
DRIVERS = {
    "list_drv": ["common/linked_list.c"],
    "log_drv": ["common/log.c"],
    "conn_drv": ["common/connection.c"],
    "poll_drv": ["seatd/poller.c", "common/linked_list.c"],
}

# test drivers linked with the built library
LIB_DRIVERS = {"ls_drv": [], "lg_drv": ["-lsystemd"], "be_drv": ["-lsystemd"], "bi_drv": ["-ldl"]}

def build():
    """Build /repo's current tree and the harness; returns the build directory."""
    h = tree_hash()
    out = "%s/build-%s" % (WORK, h)
    with Lock(WORK + "/build.lock"):
        if os.path.exists(out + "/ok"): return out
        for d in os.listdir(WORK):          # drop older builds
            if d.startswith("build-") and os.path.isdir(WORK + "/" + d):
                shutil.rmtree(WORK + "/" + d, ignore_errors=True)
        env = dict(os.environ, CC="gcc", CFLAGS="", LDFLAGS="")
        sh(["meson", "setup", out + "/m", REPO, "--buildtype=debug", "--prefix=" + out + "/pfx", "-Dbindir=bin",
            "-Dlibseat-logind=systemd", "-Dlibseat-builtin=enabled", "-Dlibseat-seatd=enabled",
            "-Dserver=enabled", "-Dexamples=disabled", "-Dman-pages=disabled", "-Dwerror=false",
            "-Ddefaultpath=seatd.sock"], env=env)
        sh(["ninja", "-C", out + "/m"], env=env)
        sh(["gcc", "-O1", "-g", "-shared", "-fPIC", "-w", "-o", out + "/shim.so", VERIF + "/harness/shim.c", "-ldl"])
        sh(["gcc", "-O1", "-g", "-shared", "-fPIC", "-w", "-o", out + "/start_shim.so", VERIF + "/harness/start_shim.c", "-ldl"])
        sh(["gcc", "-O1", "-g", "-shared", "-fPIC", "-w", "-o", out + "/launch_shim.so", VERIF + "/harness/launch_shim.c", "-ldl"])
        os.makedirs(out + "/pfx/bin", exist_ok=True)
        for x in ("spawn", "nanny", "standin"): sh(["gcc", "-O1", "-w", "-o", out + "/" + x, VERIF + "/harness/" + x + ".c"])
        shutil.copy(out + "/standin", out + "/pfx/bin/seatd")
        # whatever else of the sources those components may come to need
        rest = [x for b in ("common", "seatd") for x in sorted(os.listdir(REPO + "/" + b)) if x.endswith(".c") and x != "seatd.c"]
        os.makedirs(out + "/rest")
        for x in rest:
            b = "common" if os.path.exists(REPO + "/common/" + x) else "seatd"
            subprocess.run(["gcc", "-O1", "-g", "-w", "-std=c11", "-c", "-o", out + "/rest/" + x + ".o", REPO + "/" + b + "/" + x, "-I" + REPO + "/include", "-D_XOPEN_SOURCE=700", "-D_GNU_SOURCE"],
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        sh(["ar", "rcs", out + "/librest.a"] + sorted(out + "/rest/" + x for x in os.listdir(out + "/rest")))
        for d, srcs in DRIVERS.items():
            san = ["-fsanitize=address"] if d in ("poll_drv", "list_drv") else []
            sh(["gcc", "-O1", "-g", "-w"] + san + ["-o", out + "/" + d, VERIF + "/harness/" + d + ".c"] + [REPO + "/" + x for x in srcs] +
               [out + "/librest.a", "-I" + REPO + "/include", "-I" + VERIF + "/harness", "-D_XOPEN_SOURCE=700", "-D_GNU_SOURCE", "-ldl", "-lpthread"])
        for d, libs in LIB_DRIVERS.items():
            sh(["gcc", "-O1", "-g", "-w", "-rdynamic", "-o", out + "/" + d, VERIF + "/harness/" + d + ".c", "-I" + REPO + "/include", "-I" + VERIF + "/harness",
                "-L" + out + "/m", "-lseat", "-Wl,-rpath," + out + "/m"] + libs)
        open(out + "/ok", "w").close()
    return out

def java(args, mem="6g", workers=None, timeout=None, extra=(), cwd=None):
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m", "-cp", CP] + list(extra) + args
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, cwd=cwd)

def scratch(prefix="sv."):
    return tempfile.mkdtemp(prefix=prefix, dir="/tmp")

def write_replay(pid, rec):
    d = WORK + "/replay"
    os.makedirs(d, exist_ok=True)
    b = json.dumps(rec, indent=1)
    p = "%s/%s-%s.json" % (d, pid, hashlib.sha256(b.encode()).hexdigest()[:10])
    with open(p, "w") as f: f.write(b)
    return p
