"""The checks' command line.

    check P02 [--tier quick|thorough] [--runs N] [--seed N]
    check replay FILE
"""
import argparse
import collections
import copy
import json
import os
import queue
import shutil
import sys
import tempfile
import threading
import time

from . import build as builder
from . import zygote

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
EVIDENCE = os.path.join(ROOT, "evidence")

from .catalog import CHECKS  # noqa: E402


class Pool:
    def __init__(self, build, n, peers):
        self.zs = []
        for i in range(n):
            env = zygote.environment(build, 0)
            if peers:
                env["VSIM_PEER"] = "1234567"
            p = zygote.start(env)
            self.zs.append(p)
        for p in self.zs:
            r = zygote.recv(p.stdout.fileno())
            if r[0] != "ready":
                raise builder.BuildError("the code cannot be loaded:\n" + r[1])
        self.free = queue.Queue()
        for p in self.zs:
            self.free.put(p)

    def call(self, module, fn, *args, timeout=120):
        z = self.free.get()
        try:
            zygote.send(z.stdin.fileno(), (module, fn, args, timeout))
            return zygote.recv(z.stdout.fileno())
        finally:
            self.free.put(z)

    def close(self):
        for p in self.zs:
            p.kill()
        for p in self.zs:
            p.wait()


def evaluate(pool, module, plan, timeout=120):
    """Run a plan; returns the result dict, with crashes and hangs as violations."""
    st, v = pool.call(module, "run", plan, timeout=timeout)
    return interpret(st, v, plan)


def interpret(st, v, plan):
    if st == "ok":
        return v
    if st == "crash":
        return {"viol": [{"sig": "process-died", "msg": "the process died: " + v}], "stats": {}, "plan": plan}
    if st == "hang":
        return {"viol": [{"sig": "hang", "msg": "no progress: " + v}], "stats": {}, "plan": plan}
    return {"viol": [], "error": v, "stats": {}, "plan": plan}


def shrinks(plan):
    """Smaller plans, most drastic first."""
    out = []
    for key in ("ops", "faults", "callers", "switches"):
        xs = plan.get(key)
        if not isinstance(xs, list):
            continue
        n = len(xs)
        size = n // 2
        while size >= 1:
            for lo in range(0, n, size):
                if n - len(xs[lo:lo + size]) >= (1 if key in ("ops", "callers") else 0):
                    out.append((key, lo, size))
            size //= 2
    for lo_key, lo, size in out:
        c = copy.deepcopy(plan)
        del c[lo_key][lo:lo + size]
        yield c
    for i, caller in enumerate(plan.get("callers", [])):
        for j in range(len(caller.get("ops", []))):
            if len(caller["ops"]) > 1:
                c = copy.deepcopy(plan)
                del c["callers"][i]["ops"][j]
                yield c

    def lower(v, lo):
        return sorted({lo, (v + lo) // 2, v - 1} - {v}) if v > lo else []

    floors = {"D": 2, "T": 4, "K": 2, "iters": 1, "qiters": 1, "folds": 2}
    for group in ("data", "models"):
        for i, spec in enumerate(plan.get(group, [])):
            for k, lo in floors.items():
                if isinstance(spec.get(k), int) and not isinstance(spec.get(k), bool):
                    for v in lower(spec[k], lo):
                        c = copy.deepcopy(plan)
                        for other in c[group] if k == "T" else [c[group][i]]:   # one vocabulary
                            other[k] = v
                        yield c
            for k in ("long", "feats", "links", "cats", "logf", "batch", "burn", "dict"):
                if spec.get(k):
                    c = copy.deepcopy(plan)
                    c[group][i].pop(k)
                    yield c
    for key in ("ops",):
        for i, op in enumerate(plan.get(key, [])):
            if isinstance(op, dict):
                if isinstance(op.get("iters"), int):
                    for v in lower(op["iters"], 1):
                        c = copy.deepcopy(plan)
                        c[key][i]["iters"] = v
                        yield c
                if op.get("fault"):
                    c = copy.deepcopy(plan)
                    c[key][i].pop("fault")
                    yield c
                if op.get("poison"):
                    c = copy.deepcopy(plan)
                    c[key][i].pop("poison")
                    yield c


def minimise(pool, module, plan, sig, budget):
    """Greedy delta debugging: keep the smallest plan showing the same violation."""
    end = time.monotonic() + budget
    tried = 0
    changed = True
    while changed and time.monotonic() < end:
        changed = False
        cands = shrinks(plan)
        while True:
            batch = []
            for c in cands:
                batch.append(c)
                if len(batch) == len(pool.zs):
                    break
            if not batch or time.monotonic() > end:
                break
            results = [None] * len(batch)

            def work(i):
                results[i] = evaluate(pool, module, batch[i], timeout=30)
            ts = [threading.Thread(target=work, args=(i,)) for i in range(len(batch))]
            [t.start() for t in ts]
            [t.join() for t in ts]
            tried += len(batch)
            hit = next((i for i, r in enumerate(results) if any(x["sig"] == sig for x in r["viol"])), None)
            if hit is not None:
                plan = results[hit].get("plan") or batch[hit]
                changed = True
                break
    return plan, tried


def known_findings():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def matches(finding, prop, v):
    return finding["property"] == prop and finding["sig"] == v["sig"] and \
        all(w in v["msg"] for w in finding.get("where", []))


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("what")
    ap.add_argument("file", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--cap", type=float)
    ap.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args(argv)
    scratch = tempfile.mkdtemp(prefix="vsim-")
    pool = None
    try:
        b = builder.build(os.path.join(scratch, "build"))
        os.environ["TMPDIR"] = scratch
        if a.what == "replay":
            rep = json.load(open(a.file))
            chk = CHECKS[rep["property"]]
            pool = Pool(b, 1, chk.get("peers"))
            return replay(pool, rep)
        if a.what == "setup":  # everything is built by the checks themselves: only see that it can be
            Pool(b, 1, False).close()
            print("ok")
            return 0
        prop = a.what
        chk = CHECKS[prop]
        pool = Pool(b, a.jobs, chk.get("peers"))
        return check(pool, prop, chk, a)
    except builder.BuildError as e:
        print("cannot build or load the tree:", e)
        return 2
    finally:
        if pool:
            pool.close()
        shutil.rmtree(scratch, ignore_errors=True)


def replay(pool, rep):
    r = evaluate(pool, "vsim.props." + rep["module"], rep["plan"])
    for v in r["viol"]:
        if v["sig"] == rep["sig"]:
            print(v["msg"])
            for line in v.get("trace", []):
                print("   ", line)
            print("VIOLATION property=%s replay=%s" % (rep["property"], os.path.abspath(sys.argv[-1])))
            return 1
    print("not reproduced" + (": " + r["error"] if r.get("error") else ""))
    return 0


def check(pool, prop, chk, a):
    t0 = time.monotonic()
    module = chk["module"]
    full = "vsim.props." + module
    n = a.runs or chk["runs"][a.tier]
    cap = a.cap or chk["cap"][a.tier]
    agg = collections.Counter()
    faults = collections.Counter()
    groups = collections.defaultdict(set)
    nontrivial = set()
    samples, errors, found, known = [], [], [], {}
    lock = threading.Lock()
    stop = threading.Event()
    nxt = iter(range(n))
    kf = [f for f in known_findings()["findings"] if f["property"] == prop]
    sim_seconds = [0.0]

    def worker():
        while not stop.is_set() and time.monotonic() - t0 < cap:
            with lock:
                i = next(nxt, None)
            if i is None:
                return
            st, v = pool.call(full, "gen_run", a.seed, i, a.tier, prop)
            if st == "ok":
                r = v
            else:
                # the plan is a pure function of the seed: get it, to report it
                st2, plan = pool.call(full, "gen_only", a.seed, i, a.tier, prop)
                r = interpret(st, v, plan if st2 == "ok" else None)
            with lock:
                agg["runs"] += 1
                s = r.get("stats", {})
                for k, c in s.get("faults", {}).items():
                    faults[k] += c
                for k, c in s.get("count", {}).items():
                    agg[k] += c
                for k, vs in s.get("sets", {}).items():
                    groups[k].update(vs)
                sim_seconds[0] += s.get("sim_seconds", 0)
                if r.get("nontrivial"):
                    nontrivial.add(r["nontrivial"])
                if r.get("sample") and len(samples) < 4 and r.get("nontrivial"):
                    samples.append(r["sample"])
                if r.get("error"):
                    errors.append((i, r["error"]))
                for x in r["viol"]:
                    f = next((f for f in kf if matches(f, prop, x)), None)
                    if f:
                        known.setdefault(f["what"], 0)
                        known[f["what"]] += 1
                    else:
                        found.append((i, r.get("plan"), x))
                        if not a.keep_going:
                            stop.set()

    ts = [threading.Thread(target=worker) for _ in pool.zs]
    [t.start() for t in ts]
    [t.join() for t in ts]
    t_search = time.monotonic() - t0

    status, reported, unreproduced = 0, 0, 0
    seen = set()
    found.sort(key=lambda f: f[0])
    for i, plan, x in found:
        if x["sig"] in seen:
            continue
        again = [evaluate(pool, full, plan) for _ in range(2)]
        if not any(y["sig"] == x["sig"] for r in again for y in r["viol"]):
            unreproduced += 1
            print("run %d: %s (%s) did not repeat; not reported" % (i, x["sig"], x["msg"][:300]))
            continue
        seen.add(x["sig"])
        small, tried = minimise(pool, full, plan, x["sig"], chk.get("shrink", 45))
        final = evaluate(pool, full, small)
        y = next((y for y in final["viol"] if y["sig"] == x["sig"]), x)
        os.makedirs(os.path.join(EVIDENCE, "replay"), exist_ok=True)
        path = os.path.join(EVIDENCE, "replay", "%s-%d-%d.json" % (prop, a.seed, i))
        json.dump({"property": prop, "module": module, "sig": x["sig"], "seed": a.seed, "run": i,
                   "message": y["msg"], "trace": y.get("trace", []), "plan": small, "original_plan": plan,
                   "minimised_with": tried}, open(path, "w"), indent=1)
        print("seed %d run %d: %s" % (a.seed, i, y["msg"]))
        for line in y.get("trace", []):
            print("   ", line)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        status = 1
        reported += 1
        if not a.keep_going:
            break
    for f in kf:
        if f["what"] in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    if errors and not status:
        print("%d runs could not be judged; first: run %d: %s" % (len(errors), errors[0][0], errors[0][1][-1500:]))
        if len(errors) * 20 > agg["runs"]:
            print("too many runs could not be judged")
            status = 2
    wall = time.monotonic() - t0
    runs = agg.pop("runs")
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(nontrivial),
        "rule": chk["rule"],
        "samples": samples or ["none"],
        "runs_per_hour": int(runs / max(t_search, .001) * 3600),
        "seeds": "runs 0..%d of seed %d, each run's plan drawn from (seed, property, run number)" % (max(runs - 1, 0), a.seed),
        "simulated_time": ("%.0f s of simulated clock" % sim_seconds[0]) if sim_seconds[0] else
            "the code under this property reads no clock; simulated progress is counted in operations and events",
        "faults_injected": dict(sorted(faults.items())),
        "counts": dict(sorted(agg.items())),
        "distinct": {k: len(v) for k, v in sorted(groups.items())},
        "seen": {k: sorted(v)[:40] for k, v in sorted(groups.items()) if k.endswith("seen")},
        "real_components": chk["real"],
        "stubbed_components": chk["stub"],
        "unreproduced": unreproduced,
        "unjudged_runs": len(errors),
        "search_seconds": round(t_search, 1),
    }
    ev = {"property": prop, "tier": "thorough" if a.tier == "thorough" else "quick", "seed": a.seed,
          "level": "exploration" if not chk.get("fault") else "exploration",
          "coverage": cov, "assumptions": chk.get("assumptions", []), "wall_s": round(wall, 1), "violations": reported}
    os.makedirs(EVIDENCE, exist_ok=True)
    json.dump(ev, open(os.path.join(EVIDENCE, prop + ".json"), "w"), indent=1)
    print("%s: %d runs (%d distinct non-trivial) in %.0f s, %d violations, faults %s" %
          (prop, runs, len(nontrivial), wall, reported, dict(faults)))
    return status
