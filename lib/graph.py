"""Explore a bounded specification with TLC, keep its transition graph and derive
test walks that cross every transition."""
import json, random, re, collections
from common import *
from judge import tlc, ToolError

LINE = re.compile(r'^<<"T", (-?\d+), (-?\d+), "(.*)">>$')

def explore(module, cfg, workers=NPROC, mem="10g", timeout=600, emit=True):
    """returns dict(states, transitions, depth, graph, init, violated, out)"""
    rc, out = tlc(module, cfg, mem=mem, workers=workers, timeout=timeout)
    res = {"violated": None, "graph": {}, "init": None, "acts": []}
    m = re.search(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found, (\d+) states left", out)
    ms = list(re.finditer(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found(?: \([^)]*\))?, ([\d,]+) states left on queue", out))
    n = lambda x: int(x.replace(",", ""))
    if ms: res["transitions"], res["states"] = n(ms[-1].group(1)), n(ms[-1].group(2))
    m = re.search(r"depth of the complete state graph search is (\d+)", out)
    res["depth"] = int(m.group(1)) if m else 0
    if "Model checking completed. No error" not in out:
        v = re.search(r"(Invariant|property) (\S+) (is|was) violated|Temporal properties were violated|Action property (\S+) is violated", out)
        if v: res["violated"] = v.group(0); res["out"] = "\n".join(l for l in out.splitlines() if not l.startswith('<<"T"'))[-6000:]
        else: raise ToolError("TLC failed (rc %d)\n%s" % (rc, out[-4000:]))
    if emit:
        idx, acts, g = {}, [], {}
        for line in out.splitlines():
            m = LINE.match(line)
            if not m: continue
            a, b, j = int(m.group(1)), int(m.group(2)), m.group(3)
            if res["init"] is None: res["init"] = a
            if j not in idx:
                idx[j] = len(acts)
                acts.append(json.loads(j.replace('\\"', '"').replace("\\\\", "\\")))
            g.setdefault(a, {}).setdefault(idx[j], b)
            g.setdefault(b, {})
        res["graph"], res["acts"] = g, acts
    return res

def tours(g, init, rng, maxlen=60, budget=None):
    """walks from init (lists of action indexes) that together cross every transition,
    or, if budget (steps) does not suffice for that, a random part of them"""
    parent, order = {init: None}, [init]
    for u in order:
        for a, v in g[u].items():
            if v not in parent: parent[v] = (u, a); order.append(v)
    def path(u):
        p = []
        while parent[u]: u, a = parent[u]; p.append((u, a))
        return p[::-1]
    todo = {u: dict(g[u]) for u in order}
    left = sum(len(x) for x in todo.values())
    keys = {u: list(e) for u, e in todo.items()}
    for k in keys.values(): rng.shuffle(k)
    rng.shuffle(order)
    walks, covered, steps, oi = [], 0, 0, 0
    def cross(u, a):
        nonlocal covered
        if a in todo[u]: del todo[u][a]; covered += 1
    while oi < len(order) and (budget is None or steps < budget):
        cur = order[oi]
        if not todo[cur]: oi += 1; continue
        w = []
        for u, a in path(cur): w.append(a); cross(u, a)
        room = max(maxlen, len(w) + 8)
        while len(w) < room:
            if todo[cur]:
                while keys[cur][-1] not in todo[cur]: keys[cur].pop()
                a = keys[cur].pop()
                v = g[cur][a]
                w.append(a); cross(cur, a); cur = v
                continue
            seen, fr, hit = {cur: []}, collections.deque([cur]), None
            while fr and hit is None and len(seen) < 150:
                x = fr.popleft()
                if len(seen[x]) >= 4: break
                for a, v in g[x].items():
                    if v not in seen:
                        seen[v] = seen[x] + [(x, a)]; fr.append(v)
                        if todo.get(v): hit = v; break
            if hit is None: break
            for u, a in seen[hit]: w.append(a); cross(u, a)
            cur = hit
        walks.append(w); steps += len(w)
    return walks, covered, left
