"""Let TLC decide whether recorded runs are behaviours of a specification."""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from common import *

class ToolError(Exception): pass

def tlc(module, cfg, env=None, mem="3g", workers=1, extra=(), timeout=800, light=False, cwd=None):
    d = scratch("tlc.")
    try:
        c = d + "/m.cfg"
        with open(c, "w") as f: f.write(cfg)
        vm = ["-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1"] if light else ["-XX:+UseParallelGC"] + (["-XX:ParallelGCThreads=2"] if workers == 1 else [])
        cmd = ["java"] + vm + ["-Xmx" + mem, "-Xss64m", "-cp", CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", d + "/meta", "-config", c, "-noGenerateSpecTE"] + list(extra) + [module + ".tla"]
        e = dict(os.environ)
        if env: e.update(env)
        r = subprocess.run(cmd, cwd=cwd or SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return r.returncode, r.stdout
    finally:
        shutil.rmtree(d, ignore_errors=True)

def tlastr(s):
    """undo TLC's printing of a string"""
    return json.loads('"' + s + '"') if "\\" in s else s

def divs(out):
    res = []
    for m in re.finditer(r'^<<"DIV", "(.*)">>$', out, re.M):
        res.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
    return res

def judge(module, consts, traces, jobs=NPROC, mem="3g", timeout=800):
    """traces: list of records. Returns (list of divergences with 0-based index 'trace', states examined)."""
    if not traces: return [], 0
    # balance by length
    order = sorted(range(len(traces)), key=lambda i: -len(traces[i]["steps"]))
    jobs = max(1, min(jobs, (len(traces) + 7) // 8))
    parts = [order[j::jobs] for j in range(jobs)]
    light = sum(len(t["steps"]) for t in traces) / jobs < 12000
    d = scratch("judge.")
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n" + consts
    def one(j):
        fn = "%s/t%d.ndjson" % (d, j)
        with open(fn, "w") as f:
            for i in parts[j]: f.write(json.dumps(traces[i], separators=(",", ":")) + "\n")
        rc, out = tlc(module, cfg, env={"TRACES": fn}, mem=mem, timeout=timeout, light=light)
        ds = divs(out)
        if rc != 0 or "Model checking completed. No error" not in out:
            raise ToolError("TLC failed on recorded traces (rc %d)\n%s" % (rc, out[-3000:]))
        m = list(re.finditer(r"(\d+) distinct states found", out))
        for x in ds: x["trace"] = parts[j][x["trace"] - 1]; x["step"] -= 1
        return ds, int(m[-1].group(1)) if m else 0
    try:
        with ThreadPoolExecutor(jobs) as ex: rs = list(ex.map(one, range(jobs)))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return [x for r in rs for x in r[0]], sum(r[1] for r in rs)
