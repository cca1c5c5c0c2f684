"""Checks of a single component: walks over a specification's graph and random
operation sequences, run by a C driver linked with the component, judged by TLC."""
import json, random, subprocess, time, os
from concurrent.futures import ThreadPoolExecutor
from common import *
import graph
from judge import judge, ToolError

def run_driver(path, walks, env=None, args=(), timeout=600):
    """walks: list of (header, [op lists]); returns list of observation lists"""
    n = max(1, min(NPROC, len(walks) // 4))
    parts = [list(range(j, len(walks), n)) for j in range(n)]
    res = [None] * len(walks)
    def one(p):
        txt = "".join("walk %s\n%s" % (walks[i][0], "".join(" ".join(map(str, op)) + "\n" for op in walks[i][1])) for i in p)
        e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:handle_segv=0"); e.update(env or {})
        r = subprocess.run([path] + list(args), input=txt.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e, timeout=timeout)
        chunks, cur = [], []
        for line in r.stdout.decode("latin1").split("\n"):
            if line.startswith("END "):
                chunks.append((cur, int(line[4:]))); cur = []
            elif line.strip(): cur.append(line)
        if len(chunks) != len(p): raise ToolError("driver %s: %d of %d walks" % (path, len(chunks), len(p)))
        for i, (ls, st) in zip(p, chunks):
            obs = []
            for l in ls:
                try: obs.append(json.loads(l))
                except ValueError: break
            want = len(walks[i][1])
            obs = obs[:want]
            if len(obs) < want: obs.append({"crash": st})
            res[i] = obs
    with ThreadPoolExecutor(n) as ex: list(ex.map(one, parts))
    return res


def logged(meta, *args):
    """the header of a walk: how the program logs, and the driver's arguments"""
    return " ".join(["L%d" % meta["log"]] * bool(meta.get("log")) + [str(x) for x in args])

class Component:
    """One component under test; see the subclasses in the check modules."""
    module = None        # MC module
    tracemod = None
    facets = ()
    logs = False         # vary what becomes of log messages
    sizes = {"quick": dict(tour=20000, rand=300, maxlen=60), "thorough": dict(tour=600000, rand=20000, maxlen=80)}
    def instances(self, tier): return []          # (cfg text with Emit, meta, share of the tour)
    def deep(self, tier): return []               # cfg texts only model checked
    def random_walk(self, rng, k, tier): return None   # (meta, ops)
    def prepare(self): self.bdir = build()
    def execute(self, items): raise NotImplementedError   # [(meta, ops)] -> [observations]
    def oplist(self, acts): return acts
    def trace(self, meta, ops, obs): return dict(meta, steps=[{"a": a, "o": o} for a, o in zip(ops, obs)])

def run(comp, pid, tier, seed):
    t0 = time.time()
    rng = random.Random("%s/%d/%s" % (pid, seed, tier))
    comp.prepare()
    Z = comp.sizes[tier]
    cov = {"states": 0, "transitions": 0, "instances": [], "facets": sorted(comp.facets)}
    items = []
    insts = comp.instances(tier)
    wsum = sum(w for _, _, w in insts) or 1
    for cfg, meta, w in insts:
        r = graph.explore(comp.module, cfg)
        if r["violated"]: raise ToolError("the specification itself violates " + r["violated"] + "\n" + r["out"])
        walks, covered, left = graph.tours(r["graph"], r["init"], rng, Z["maxlen"], int(Z["tour"] * w / wsum))
        for wk in walks: items.append((meta, comp.oplist([r["acts"][a] for a in wk])))
        cov["states"] += r["states"]; cov["transitions"] += r["transitions"]
        cov["instances"].append({"bounds": " ".join(cfg.split("CONSTANTS")[1].split("INVARIANT")[0].split()), "states": r["states"], "transitions": r["transitions"],
                                 "depth": r["depth"], "edges": left, "edges_replayed": covered, "walks": len(walks)})
    for cfg in comp.deep(tier):
        try: r = graph.explore(comp.module, cfg, emit=False, timeout=240)
        except subprocess.TimeoutExpired: continue
        if r["violated"]: raise ToolError("the specification itself violates " + r["violated"])
        cov["states"] += r["states"]; cov["transitions"] += r["transitions"]
        cov["instances"].append({"bounds": " ".join(cfg.split("CONSTANTS")[1].split("INVARIANT")[0].split()), "states": r["states"], "transitions": r["transitions"], "depth": r["depth"], "edges_replayed": 0})
    nw = len(items)
    for k in range(Z["rand"]):
        x = comp.random_walk(rng, k, tier)
        if x is None: break
        items.append(x)
    if comp.logs: items = [(dict(m, log=rng.choice([0, 0, 1, 2])), ops) for m, ops in items]
    t1 = time.time()
    obs = comp.execute(items)
    traces = [comp.trace(m, ops, o) for (m, ops), o in zip(items, obs)]
    t2 = time.time()
    consts = " Facets = {%s}" % ", ".join('"%s"' % f for f in sorted(comp.facets))
    ds, nst = judge(comp.tracemod, consts, traces)
    t3 = time.time()
    bad = []
    for d in sorted(ds, key=lambda d: (d["step"], d["trace"]))[:4]:
        meta, ops = items[d["trace"]]
        part = ops[:d["step"] + 1]
        for _ in range(3):
            o = comp.execute([(meta, part)])[0]
            dd, _n = judge(comp.tracemod, consts, [comp.trace(meta, part, o)], jobs=1)
            if dd:
                x = dd[0]
                bad.append(write_replay(pid, {"kind": comp.module, "property": pid, "meta": meta, "ops": part, "facets": sorted(x["facets"]), "step": x["step"],
                                              "observed": o[x["step"]] if x["step"] < len(o) else None, "expected": x["expected"]}))
                break
        if len(bad) >= 2: break
    cov.update({"traces_validated_against_impl": len(traces) - len(ds), "impl_steps": sum(len(t["steps"]) for t in traces), "tour_walks": nw,
                "random_traces": len(traces) - nw, "judge_states": nst, "unreproduced_divergences": len(ds) if ds and not bad else 0,
                "seconds": {"explore": round(t1 - t0, 1), "run": round(t2 - t1, 1), "judge": round(t3 - t2, 1)},
                "samples": [{"meta": t.get("meta", ""), "steps": [{"do": " ".join(map(str, s["a"])) if isinstance(s["a"], list) else s["a"], "got": s["o"]} for s in t["steps"][:8]]}
                            for t in ([traces[0], traces[-1]] if traces else [])]})
    return bad, cov
