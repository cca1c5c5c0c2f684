"""Runs the real seatd-launch with stand-ins for seatd and the command."""
import json, os, shutil, subprocess
from common import *

IDS = {"user": "1000,0,0,1000,1000,1000", "sgid": "1000,0,0,1,0,0", "daemon": "1,0,0,2,2,2", "plain": "1000,1000,1000,1000,1000,1000", "suid": "1000,1,1,1000,1000,1000", "root": "0,0,0,0,0,0"}
def tools(b):
    d = scratch("lt.")
    os.chmod(d, 0o755)
    for x, y in (("standin", "cmd"), ("launch_shim.so", "launch_shim.so"), ("nanny", "nanny")):
        shutil.copy(b + "/" + x, d + "/" + y); os.chmod(d + "/" + y, 0o755)
    return d
def run_launch(b, t, cfg):
    d = scratch("la.")
    try:
        os.chmod(d, 0o777)
        open(d + "/log", "w").close(); os.chmod(d + "/log", 0o666)
        with open(d + "/plan", "w") as f: f.write(" ".join(cfg["plan"]))
        os.symlink(t + "/cmd", d + "/cmd")
        env = {"PATH": "/usr/bin:/bin:" + d, "LS_IDS": IDS[cfg["ids"]], "MARK": "m", "SEATD_SOCK": "wrong"}
        if cfg["fail"]["c"]: env["LS_FAIL"] = "%s:%d:%d" % (cfg["fail"]["c"], cfg["fail"]["n"], cfg["fail"]["e"])
        if cfg["chld"]: env["LS_CHLD"] = "1"
        try: subprocess.run([t + "/nanny", t + "/launch_shim.so", b + "/m/seatd-launch"] + cfg["args"], cwd=d, env=env,
                       stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
        except subprocess.TimeoutExpired: return [{"t": "hang"}]
        with open(d + "/log") as f: return [json.loads(l) for l in f if l.strip()]
    finally: shutil.rmtree(d, ignore_errors=True)
