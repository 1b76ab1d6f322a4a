"""P05: stopping and continuing inference equals one longer run, and continuing
is refused unless state for that very dataset object was kept just before.

merge: one long transform (or fit, for the variational kinds), against the
same work stopped and continued at planned points, with scores in between.
refuse: random histories of calls that keep, use or drop state, on datasets
which are equal, equally shaped, re-created at the same address or given as
plain matrices, against a reference model of one variable."""
from .base import *

MERGING = ("LDA_CVB0", "LDA_CVB", "LDA_VB", "LDA_VB_PYTHON_IMPL", "MOM_VB")
FIT_MERGING = ("LDA_VB", "LDA_VB_PYTHON_IMPL", "MOM_VB")
REFUSED = "ValueError"


def gen(rng, tier):
    mode = "merge" if rng.random() < 0.5 else "refuse"
    if mode == "merge":
        spec = draw_model(rng, MERGING, tier)
        spec.pop("logf", None)
        spec.pop("batch", None)   # online steps depend on their number
        plan = {"models": [spec], "data": draw_data(rng, rng.randint(1, 3), tier), "mode": mode}
        fix_data_for(plan)
        nd = len(plan["data"])
        what = "fit" if spec["kind"] in FIT_MERGING and rng.random() < .4 else "transform"
        ops = []
        if what == "transform" or rng.random() < .4:
            ops = [op_base(rng, "fit", 0, rng.randrange(nd), iters=rng.randint(1, 8))]
        d = rng.randrange(nd)
        n = rng.randint(2, 4)
        for j in range(n):
            ops.append(op_base(rng, what, 0, d, iters=rng.randint(1, 6), persist=True, resume=j > 0, link=True))
            for _ in range(rng.choice([0, 0, 1, 2])):
                if j < n - 1 and (j > 0 or what == "transform" or len(ops) > 1):
                    ops.append(op_base(rng, "score", 0, rng.randrange(nd), method=rng.choice(POINT_METHODS), **{"with": "none"}))
        plan["ops"] = ops
        return plan
    spec = draw_model(rng, TM_KINDS, tier)
    data = draw_data(rng, rng.randint(2, 4), tier, small=True)
    for _ in range(rng.randint(0, 2)):
        data.append(dict(rng.choice(data)))      # equal datasets
    plan = {"models": [spec], "data": data, "mode": mode}
    fix_data_for(plan)
    nd = len(data)
    ops = [op_base(rng, "fit", 0, 0, iters=2, persist=rng.random() < .6)]
    last = 0
    for _ in range(rng.randint(3, 10)):
        r = rng.random()
        warm = ops[-1].get("persist", False)
        d = last if rng.random() < (.75 if warm else .4) else rng.randrange(nd)
        if r < 0.12:
            ops.append({"op": "renew", "d": d})
        elif r < 0.2:
            ops.append(op_base(rng, "score", 0, d, method=rng.choice(POINT_METHODS), **{"with": "none"}))
        else:
            op = op_base(rng, rng.choice(["transform", "transform", "fit", "fit_transform"]), 0, d, iters=rng.randint(1, 3),
                         persist=rng.random() < .55, resume=rng.random() < (.75 if warm else .35))
            if op["op"] == "fit_transform":
                op["persist"] = op["resume"] = False
            elif rng.random() < .12:
                op["raw"] = True
            elif op["op"] == "transform" and not op["resume"] and rng.random() < .25:
                op["op"] = "infer"
            ops.append(op)
            last = d
    plan["ops"] = ops
    return plan


def merge_session(plan, ops, merged):
    """The mixtures after the chain of linked calls, or None if one failed."""
    s = Session(plan)
    links = [o for o in ops if o.get("link")]
    total = sum(o["iters"] for o in links)
    val = None
    for op in ops:
        if op.get("link") and merged:
            if op is not links[0]:
                continue
            op = dict(op, iters=total)
        r = s.do(op)
        if op.get("link"):
            if "ok" not in r:
                return ("err", r["err"], r["msg"])
            m = s.models[0].m
            y = r["val"] if op["op"] == "transform" else None
            val = ("ok", [np.asarray(y if y is not None else 0.0, dtype=float), np.asarray(m.components_, dtype=float)])
    return val


def run_merge(plan, st, viol):
    ops, kind = plan["ops"], plan["models"][0]["kind"]
    links = [o for o in ops if o.get("link")]
    if not links or links[0].get("resume") or not all(o.get("resume") for o in links[1:]):
        raise Invalid
    a = isolate(merge_session, plan, ops, False)
    b = isolate(merge_session, plan, ops, True)
    st.count["chains of %d %ss" % (len(links), links[0]["op"])] += 1
    if a[0] == "err":
        if b[0] == "ok":
            viol.append({"sig": "continuing-refused", "msg": "%s: continuing on the dataset kept just before failed with %s: %s" % (kind, a[1], a[2]),
                         "trace": [show(o) for o in ops]})
        return None
    if b[0] == "err":
        return None
    for what, x, y in zip(("mixtures", "topics"), a[1], b[1]):
        if x.shape != y.shape or not np.allclose(x, y, rtol=2e-3, atol=5e-4, equal_nan=True):
            diff = float(np.abs(x - y).max()) if x.shape == y.shape else float("nan")
            viol.append({"sig": "not-merging", "msg": "%s: %d iterations in %d parts of %s gave %s differing by %.3g from the single run" % (
                kind, sum(o["iters"] for o in links), len(links), links[0]["op"], what, diff), "trace": [show(o) for o in ops]})
            break
        st.count["merged chains compared"] += 1
    return digest([np.round(x, 6) for x in a[1]])


def refuse_session(plan, ops):
    s = Session(plan)
    out = []
    for op in ops:
        same_address = None
        if op["op"] == "renew":
            if op["d"] in s.data:
                old = id(s.data[op["d"]])
                s.do(op)
                same_address = id(s.data[op["d"]]) == old
            out.append({"same_address": same_address})
            continue
        if op.get("raw"):
            ds = s.ds(op["d"])
            s.data[op["d"]] = ds.words
            r = s.do(op)
            s.data[op["d"]] = ds
        else:
            r = s.do(op)
        out.append({k: v for k, v in r.items() if k != "val"})
    return out


def run_refuse(plan, st, viol):
    ops, kind = plan["ops"], plan["models"][0]["kind"]
    out = isolate(refuse_session, plan, ops)
    st.outcomes([o for o in ops if o["op"] != "renew"], [r for o, r in zip(ops, out) if o["op"] != "renew"], plan)
    kept, gens, trained, n = None, {}, False, 0
    for i, (op, r) in enumerate(zip(ops, out)):
        if op["op"] == "renew":
            gens[op["d"]] = gens.get(op["d"], 0) + 1
            st.count["datasets re-created%s" % (" at the same address" if r.get("same_address") else "")] += 1
            continue
        if op["op"] == "score":
            continue
        obj = ("raw", i) if op.get("raw") else (op["d"], gens.get(op["d"], 0))
        if op.get("resume"):
            n += 1
            granted = kept is not None and kept == obj and (trained or op["op"] == "fit")
            if granted and r.get("err") == REFUSED:
                viol.append({"sig": "continuing-refused", "msg": "%s: %s was refused though the call before kept its state" % (kind, show(op))})
            elif not granted and "ok" in r:
                viol.append({"sig": "continuing-granted", "msg": "%s: %s%s was not refused, though state was %s" % (
                    kind, show(op), " on a plain matrix" if op.get("raw") else "",
                    "not kept" if kept is None else "kept for another dataset object")})
            if viol:
                viol[-1]["trace"] = [(show(o) if "m" in o else "renew dataset %d" % o["d"]) + " -> " +
                                     ("" if "m" not in o else result_of(q)) for o, q in zip(ops[:i + 1], out)]
                return None
            st.count["continuations granted" if granted else "continuations refused"] += 1
        if "ok" in r:
            trained = trained or op["op"] not in ("transform", "infer")
            if op["op"] != "infer" or op.get("persist"):
                kept = obj if op.get("persist") else None
        elif not op.get("resume"):
            return None
    return digest([r.get("ok", r.get("err")) for r in out]) if n else None


def run(plan):
    st, viol = Stats(), []
    nt = (run_merge if plan["mode"] == "merge" else run_refuse)(plan, st, viol)
    return report(plan, viol, st, nt, {"mode": plan["mode"], "models": plan["models"], "data": plan["data"],
                                       "ops": [show(o) if "m" in o else str(o) for o in plan["ops"]]})


gen_only, gen_run, run = entry(gen, run)
