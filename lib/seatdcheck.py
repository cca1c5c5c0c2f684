"""Checks of the server properties C01..C15: Seatd.tla against the real seatd binary."""
import sys, time, random, json, os, hashlib
from multiprocessing import Pool, Value
from common import *
import srv, graph
from judge import judge, ToolError

def I(vtb=False, imm=False, L=2, O=1, R=1, VTs=(1, 2), P=("/dev/dri/card0", "/dev/input/event0"), X=(), Bud=()):
    return dict(vtb=vtb, imm=imm, L=L, O=O, R=R, VTs=VTs, P=P, X=X, Bud=Bud)

INVS = "I01 I02 I03 I04 I05 I07 I08 I09 I10 I14 I15"
PROPS = "A01 A03 A04 A06 A08 A10 A11 A12 A13"

def tset(x): return "{" + ", ".join('"%s"' % y if isinstance(y, str) else str(y) for y in x) + "}"
def cfgtext(i, emit=True):
    return """SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTRAINT OutBound
CONSTANTS
 VTB = %s
 IMM = %s
 MaxLive = %d
 MaxOfd = %d
 MaxRef = %d
 VTs = %s
 PathsUsed = %s
 Extra = %s
 Bud = %s
 Emit = %s
INVARIANTS %s
PROPERTIES %s
""" % (str(i["vtb"]).upper(), str(i["imm"]).upper(), i["L"], i["O"], i["R"], tset(i["VTs"]), tset(i["P"]), tset(i["X"]),
       tset(i["Bud"]), str(emit).upper(), INVS, PROPS)

VT = dict(vtb=True); NV = dict(vtb=False)
DEV = dict(opendev=25, closedev=8, closeseat=0.7, close=0.8)

# facets: the aspects of the observations the property speaks about
# insts: (instance, share of the tour steps); rand: (profile, share of the random traces)
N3 = I(L=3, O=0, X=("bad",))
N1 = I(O=1, X=("bad", "ping", "shut", "closefd", "term"))
N2 = I(O=2)
NX = I(O=2, P=("/dev/dri/card0",), X=("ext",))
NR = I(L=1, O=2, R=2, X=("bad",))
NB = I(L=2, O=1, P=("/dev/dri/card0",), X=("budget",), Bud=(0, 1000))
NB1 = I(L=1, O=1, X=("budget", "ping"), Bud=(0, 5, 9, 1000))
V0 = I(vtb=True, O=0, X=("bad",))
VS = I(vtb=True, O=0, X=("spurious",))
V1 = I(vtb=True, O=1, X=("term",))
VI = I(vtb=True, imm=True, O=0, X=("spurious", "bad"))
VI1 = I(vtb=True, imm=True, O=1, X=("term", "shut"))
VI3 = I(vtb=True, imm=True, L=3, O=0, VTs=(1, 2, 3))
V3 = I(vtb=True, O=0, L=3, VTs=(1, 2))
VF = I(vtb=True, imm=True, O=0, X=("tty",))
VF1 = I(vtb=True, O=1, P=("/dev/dri/card0",), X=("tty",))

CHECKS = {
    "C01": dict(facets="event resp err eof alive", insts=[(N3, 1), (V0, 1), (VI, .5), (VF, .5)],
                rand=[({}, 1), (dict(vtb=True, multi=.6, sig_late=.4), 1), (dict(slow=.1), .5), (dict(VT, ftty=.15, multi=.3), .5)]),
    "C02": dict(facets="rev mast order held alive", insts=[(N2, 1), (V1, 1), (VI1, 1), (VF1, .5)],
                rand=[(dict(w=DEV), 1), (dict(VT, w=DEV, multi=.5), 1), (dict(w=DEV, paths="some", term=.05), .7), (dict(slow=.15, w=DEV), .5), (dict(VT, ftty=.15, w=DEV), .4)]),
    "C03": dict(facets="mast rev opens held keep alive", insts=[(NX, 1), (N2, 1), (VI1, 1)],
                rand=[(dict(w=DEV), 1), (dict(NV, w=DEV, ext=.1), 1), (dict(w=dict(DEV, switch=10), paths="some"), 1)]),
    "C04": dict(facets="opens devfd resp err eof alive", insts=[(N1, 1), (VI1, .5)],
                rand=[(dict(w=DEV, paths="all"), 3), (dict(w=DEV, paths="some", faults=.1, falloc=.2), 1)]),
    "C05": dict(facets="devid devfd held resp err opens fds alive", insts=[(NR, 2), (N2, 1), (VI1, .5)],
                rand=[(dict(w=DEV, paths="some"), 1), (dict(w=DEV, paths="some", faults=.1, falloc=.2), .5),
                      (dict(paths="many", steps=60, pipeline=.95, live=2, w=dict(opendev=80, closeseat=.1, close=.1, closedev=3, switch=.2, chvt=.2)), .5)]),
    "C06": dict(facets="event resp err alive", insts=[(N3, 2), (N1, 1)],
                rand=[(dict(NV, live=5, conns=9, w=dict(switch=15, ping=.5)), 2), (dict(NV, multi=.6, w=dict(switch=15)), 1)]),
    "C07": dict(facets="event eof vt fg resp alive", insts=[(N3, 1), (V0, 1), (V3, 1), (VI, .5)],
                rand=[(dict(w=dict(close=4, shut=1.5)), 1), (dict(VT, w=dict(close=4), multi=.5), 1), (dict(slow=.15, w=dict(close=3)), .6)]),
    "C08": dict(facets="fg nv sig event novt resp err alive", insts=[(VS, 1), (V0, 1), (VI, .5), (VI3, 1), (VF, .5)],
                rand=[(dict(VT, w=dict(chvt=10, switch=10)), 1), (dict(VT, multi=.6, sig_late=.4, spurious=.1, w=dict(switch=8)), 1), (dict(NV), .4),
                      (dict(VT, w=DEV), .6), (dict(VT, ftty=.15, w=dict(chvt=8, switch=8)), .5)]),
    "C09": dict(facets="vt alive", insts=[(V0, 1), (VI3, 1), (VI1, 1), (VF, .5)],
                rand=[(dict(VT, w=dict(close=4, shut=1)), 1), (dict(VT, multi=.6, sig_late=.4, spurious=.1, term=.05), 1), (dict(NV), .3), (dict(VT, ftty=.15, w=dict(close=4)), .5)]),
    "C10": dict(facets="eof event vt resp conns alive", insts=[(V0, 1.5), (N3, 1), (V3, 1), (VF, .5)],
                rand=[(dict(VT, conns=10, live=5, w=dict(openseat=20, connect=6)), 1), (dict(conns=10, live=5, garbage=0, w=dict(openseat=20, connect=6, closeseat=4)), 1), (dict(VT, ftty=.15, conns=10, live=5, w=dict(openseat=20, connect=6)), .5)]),
    "C11": dict(facets="seq event resp err devid devfd name eof conns fg vt opens rev mast held fds alive", insts=[(N1, 1), (V0, 1)],
                rand=[(dict(garbage=.3, seg=.3, pipeline=.5), 2), (dict(garbage=.15, fds=.3), 1), (dict(garbage=.2, w=DEV, multi=.6), 1), (dict(garbage=.1, slow=.2, falloc=.2), .5), (dict(garbage=.2, burst=.1), .4), (dict(VT, ftty=.2, garbage=.1), .3)]),
    "C12": dict(facets="seq err devid devfd name eof alive", insts=[(N1, 1), (NR, 1), (VI1, .5)],
                rand=[(dict(pipeline=.7, seg=.3, garbage=0, w=DEV), 2), (dict(burst=.3, garbage=.02, w=DEV, steps=25), .6), (dict(pipeline=.4, seg=.5, multi=.5, noise=.1), 1), (dict(pipeline=.6, slow=.1), .5)]),
    "C13": dict(facets="seq eof devfd conns err devid alive", insts=[(NB, 1), (NB1, 1)],
                rand=[(dict(slow=.4, pipeline=.5, w=DEV), 2), (dict(slow=.3, multi=.5, w=dict(switch=8, ping=6)), 1), (dict(slow=.4, pipeline=.8, garbage=0, burst=.1, w=dict(ping=20)), 1)]),
    "C14": dict(facets="fds held conns devfd eof alive", insts=[(N1, 1), (NR, 1), (NB1, .5), (VI1, .5)],
                rand=[(dict(w=DEV, fds=.3), 1), (dict(w=DEV, paths="some", faults=.2, falloc=.3), 1), (dict(slow=.3, w=DEV), 1), (dict(noise=.2, garbage=.1, fds=.1), .6), (dict(VT, ftty=.2, w=DEV), .4)]),
    "C15": dict(facets="alive rev mast vt eof event", insts=[(N1, 1), (VI1, 1.5), (V1, 1.5)],
                rand=[(dict(term=.25, latehook=.4, w=DEV), 2), (dict(VT, term=.15, multi=.6, latehook=.3), 1.5), (dict(term=.2, slow=.3), .5)]),
}

# long histories, besides: counters, handles and session numbers beyond what short runs reach; many clients
_B = dict(steps=2000)
REFS, CLIMB = dict(_B, long="refs"), dict(_B, long="climb")
def CLIENTS(n, **kw): return dict(_B, long="clients", n=n, **kw)
def CROWD(n, **kw): return dict(_B, long="crowd", n=n, **kw)
LONG = {"C03": [REFS, CLIMB], "C05": [REFS] * 4 + [CLIMB] * 4, "C06": [CLIENTS(140, **NV), CLIENTS(262, **NV), CLIENTS(262, **NV), CROWD(40, **NV)],
        "C02": [REFS], "C07": [CLIENTS(140), CROWD(60)], "C10": [CLIENTS(140), CLIENTS(262, **NV), CROWD(60), CROWD(140)], "C11": [CROWD(150)], "C12": [CROWD(70), CLIMB],
        "C14": [CROWD(70), CROWD(250), CLIENTS(262), REFS, CLIMB], "C15": [CROWD(70), CROWD(250)]}
def longs(pid, tier):
    b = CHECKS[pid]["rand"][0][0]
    return (LONG.get(pid, [CLIENTS(40)]) + [dict(b, vtb=v if b.get("vtb") is None else b["vtb"], conns=60, steps=400, term=0) for v in (True, False)]) * (1 if tier == "quick" else 12)

SIZES = {"quick": dict(tour=36000, rand=420, maxlen=60), "thorough": dict(tour=700000, rand=9000, maxlen=80)}
# further instances, explored without deriving walks from all of them, in thorough runs
DEEP = {True: [I(vtb=True, O=1, VTs=(1, 2, 3), X=("spurious",)), I(vtb=True, imm=True, L=3, O=1, VTs=(1, 2), X=("bad",))],
        False: [I(L=3, O=1, X=("bad",)), I(L=3, O=2), I(L=4, O=0, X=("bad",))]}

_b = None
hangs = Value("i", 0)
def _job(j):
    kind, cfg, x = j
    if hangs.value >= 8 and kind != "script": return {"skip": 1, "steps": []}       # it hangs often enough to tell
    try:
        r = srv.run_walk(_b, cfg, x) if kind == "walk" else srv.run_script(_b, cfg, x) if kind == "script" else srv.run_random(_b, x, cfg)
        if r["steps"] and r["steps"][-1]["o"]["alive"] in ("hang", "spin"): hangs.value += 1
        return r
    except Exception as e:
        import traceback; return {"error": "%s: %s %s" % (type(e).__name__, e, traceback.format_exc()[-700:]), "job": kind}

def slim(tr, facets):
    """leave out what is not compared (parsing is most of the judge's work)"""
    if facets & {"order", "keep", "novt", "fds"}: return tr
    return dict(tr, steps=[{"as": s["as"], "o": {k: v for k, v in s["o"].items() if k != "ev"}} for s in tr["steps"]])

def consts(facets): return " Facets = " + tset(sorted(facets))

def run(pid, tier, seed):
    global _b
    t0 = time.time()
    C = CHECKS[pid]
    Z = SIZES[tier]
    facets = set(C["facets"].split())
    _b = build()
    rng = random.Random("%s/%d/%s" % (pid, seed, tier))
    cov = {"states": 0, "transitions": 0, "instances": [], "facets": sorted(facets)}
    jobs = []
    wsum = sum(w for _, w in C["insts"])
    for inst, w in C["insts"]:
        r = graph.explore("MCSeatd", cfgtext(inst))
        if r["violated"]: raise ToolError("the specification itself violates " + r["violated"] + "\n" + r["out"])
        walks, covered, left = graph.tours(r["graph"], r["init"], rng, Z["maxlen"], int(Z["tour"] * w / wsum))
        cfg = {"vtb": inst["vtb"], "fg": 1, "imm": inst["imm"]}
        for wk in walks:
            acts = [r["acts"][a] for a in wk]
            if not acts or acts[-1]["a"] != "term": acts = acts + [{"a": "term"}]
            jobs.append(("walk", dict(cfg, lev=rng.choice(["silent", "silent", "error", "debug"])), acts))
        cov["states"] += r["states"]; cov["transitions"] += r["transitions"]
        cov["instances"].append({"bounds": {k: list(v) if isinstance(v, tuple) else v for k, v in inst.items()}, "states": r["states"], "transitions": r["transitions"],
                                 "depth": r["depth"], "edges": left, "edges_replayed": covered, "walks": len(walks)})
    if tier == "thorough":
        for vtb in sorted({i["vtb"] for i, _ in C["insts"]}):
            for inst in DEEP[vtb]:
                try: r = graph.explore("MCSeatd", cfgtext(inst, False), emit=False, timeout=240)
                except subprocess.TimeoutExpired: continue
                if r["violated"]: raise ToolError("the specification itself violates " + r["violated"])
                cov["states"] += r["states"]; cov["transitions"] += r["transitions"]
                cov["instances"].append({"bounds": {k: list(v) if isinstance(v, tuple) else v for k, v in inst.items()}, "states": r["states"],
                                         "transitions": r["transitions"], "depth": r["depth"], "edges_replayed": 0})
    nw = len(jobs)
    rsum = sum(w for _, w in C["rand"])
    k = 0
    for prof, w in C["rand"]:
        for _ in range(int(Z["rand"] * w / rsum)):
            jobs.append(("rand", prof, "%s/%d/%s/%d" % (pid, seed, tier, k))); k += 1
    for prof in longs(pid, tier):
        jobs.append(("rand", prof, "%s/%d/%s/%d" % (pid, seed, tier, k))); k += 1
    t1 = time.time()
    with Pool(NPROC) as p: traces = p.map(_job, jobs, chunksize=8)
    traces = [t for t in traces if "skip" not in t]
    errs = [t for t in traces if "error" in t]
    if errs: raise ToolError("harness: " + errs[0]["error"])
    t2 = time.time()
    ds, nst = judge("SeatdTrace", consts(facets), [slim(t, facets) for t in traces])
    t3 = time.time()
    bad = []
    for d in sorted(ds, key=lambda d: (d["step"], d["trace"]))[:6]:
        t = traces[d["trace"]]
        script = [s["as"] for s in t["steps"][:d["step"] + 1]]
        cfg = {k: t[k] for k in ("vtb", "fg", "imm", "sig", "lev") if k in t}
        conf = None
        for _ in range(3):
            again = _job(("script", cfg, script))
            if "error" in again: continue
            dd, _n = judge("SeatdTrace", consts(facets), [slim(again, facets)], jobs=1)
            if dd: conf = (again, dd[0]); break
        if conf is None: continue
        rp = write_replay(pid, {"kind": "seatd", "property": pid, "cfg": cfg, "script": script, "facets": sorted(conf[1]["facets"]), "checked": sorted(facets),
                                "step": conf[1]["step"], "observed": conf[0]["steps"][conf[1]["step"]]["o"], "expected": conf[1]["expected"]})
        bad.append(rp)
        if len(bad) >= 2: break
    steps = sum(len(t["steps"]) for t in traces)
    cov.update({"traces_validated_against_impl": len(traces) - len(ds), "impl_steps": steps, "tour_walks": nw, "random_traces": len(traces) - nw,
                "judge_states": nst, "unreproduced_divergences": len(ds) if ds and not bad else 0,
                "seconds": {"explore": round(t1 - t0, 1), "run": round(t2 - t1, 1), "judge": round(t3 - t2, 1)},
                "samples": [sample(traces[i]) for i in sorted({0, nw // 2, len(traces) - 1}) if i < len(traces)]})
    return bad, cov

def sample(t):
    return {"vtb": t["vtb"], "imm": t["imm"], "steps": [{"do": [brief(a) for a in s["as"]], "got": [[m["k"] for m in x] for x in s["o"]["m"]], "fg": s["o"]["fg"]}
                                                       for s in t["steps"][:12]]}
def brief(a):
    if a["a"] == "send": return "send c%d %s" % (a["c"], bytes(a["b"]).hex()[:80])
    return " ".join(str(v) for v in a.values())
