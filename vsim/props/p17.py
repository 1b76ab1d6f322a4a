"""P17: copies and duplicates of a model are independent.

A history in which models are copied, and source and copies then used in any
order, with some calls failing at a planned point.  Every model's results must
be those of a session without copies, in which one model alone lives through
its lineage: what its source did before the copy, then what it did itself.  In
some sessions copies are made but not used, and nothing sets the random streams:
the results must be those of the session without the copies."""
from .faulty import *

MODS = SEEDED_MODS + ("mod:lda_cvb0", "mod:lda_cvb", "mod:lda_vb", "mod:lda_vb_python", "mod:lda_gibbs", "mod:mom_em", "mod:mom_gibbs")


def gen(rng, tier):
    mod = rng.random() < .45
    plan = {"models": [draw_model(rng, MODS if mod else TM_KINDS, tier)],
            "data": draw_data(rng, rng.randint(1, 3), tier, T=rng.randint(6, 60), small=mod)}
    fix_data_for(plan)
    nd, ops, live, kept = len(plan["data"]), [], [0], {0: None}
    spec = plan["models"][0]
    if spec["kind"] == "mod:lro_vb":
        tier = "quick"
    plan["models"] += [dict(spec) for _ in range(3)]
    n = rng.randint(4, 12 if tier == "quick" else 18)
    copied = 0
    for j in range(n):
        m, d, r = rng.choice(live), rng.randrange(nd), rng.random()
        if copied < 3 and j and (r < .2 or (j == n - 3 and not copied)):
            copied += 1
            ops.append({"op": "copy", "m": m, "m2": copied, "seed": 1})
            live.append(copied)
            kept[copied] = kept[m]
            continue
        if (j == 0 and rng.random() < .85) or r < .5:
            op = op_base(rng, "fit", m, d, iters=rng.randint(1, 6), persist=not mod and rng.random() < .5)
        elif not mod and r < .6 and kept[m] is not None:
            op = op_base(rng, rng.choice(["fit", "transform"]), m, kept[m], iters=rng.randint(1, 5), resume=True, persist=rng.random() < .6)
        else:
            op = draw_inference(rng, m, d, spec)
            if op["op"] == "transform" and not mod:
                op["persist"] = rng.random() < .5
            if not mod and op["op"] == "score" and op.get("with") == "qs" and kept[m] is not None:
                op["d"] = kept[m]
        if op["op"] in ("fit", "transform"):
            kept[m] = op["d"] if op.get("persist") else None
        if copied and rng.random() < .25:
            op["fault"] = draw_fault(rng)
        ops.append(op)
    ops += [op_base(rng, "components", m, 0) for m in live]
    ops += [op_base(rng, "transform", m, rng.randrange(nd), iters=3) for m in live]
    ops += [op_base(rng, "fit", m, rng.randrange(nd), iters=2) for m in live]
    plan["ops"] = ops
    if rng.random() < .15:      # nothing but the model's seed sets the random streams
        plan["still"] = True
        plan["ops"] = [{k: v for k, v in o.items() if k != "fault"} for o in ops if o["m"] == 0]
    return plan


def still(plan, ops):
    seams.seed_all(plan["models"][0]["seed"])
    s = Session(plan, own_rng=False)
    out = []
    for op in ops:
        r = s.do(op)
        if op["op"] != "copy":
            out.append({k: v for k, v in r.items() if k != "val" or keeps(plan)})
    return out


def run_still(plan):
    """Copies no one uses are as if never made."""
    st, viol = Stats(), []
    ops, kind = plan["ops"], plan["models"][0]["kind"]
    rest = [o for o in ops if o["op"] != "copy"]
    with_, without = isolate(still, plan, ops), isolate(still, plan, rest)
    st.outcomes(rest, [{k: v for k, v in r.items() if k != "val"} for r in with_], plan)
    for i, (op, a, b) in enumerate(zip(rest, with_, without)):
        if not same(a, b) and not ("val" in a and "val" in b and close(a["val"], b["val"])):
            viol.append({"sig": "copying-disturbs", "msg": "%s: %s gave %s, but %s had no copies been made" % (
                kind, show(op), result_of(a), result_of(b)), "trace": [show(o) for o in ops]})
            break
    st.count["sessions whose copies are not used"] += 1
    return report(plan, viol, st, digest([r.get("ok") for r in with_]) if len(rest) < len(ops) else None,
                  {"models": plan["models"][:1], "data": plan["data"], "ops": [show(o) for o in ops]})


def lineages(ops):
    """Per model, the indices of the operations it lived through."""
    life, dead = {0: []}, set()
    for i, op in enumerate(ops):
        if op["m"] not in life:
            raise Invalid()
        if op["op"] == "copy":
            if op["m2"] in life:
                raise Invalid()
            life[op["m2"]] = list(life[op["m"]])
        else:
            life[op["m"]].append(i)
    return life


def settings(s, i):
    m = s.models[i]
    if isinstance(m, Mod):
        return digest([x for x in m.model]) if isinstance(m.model, tuple) else digest(m.model)
    return digest([m.m.get_params(), {k: v for k, v in vars(m.m).items() if not k.startswith("_") and k not in ("fit_metrics_", "transform_metrics_")},
                   m.m._model_state, m.m._last_query_state])


def keeps(plan):
    """A duplicate of a model may be laid out otherwise in memory, so that sums
    over it differ by rounding: results of modules are compared as numbers."""
    return plan["models"][0]["kind"].startswith("mod:")


def close(a, b):
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if a is None or b is None:
        return a is b
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-4, atol=1e-6, equal_nan=True)


def together(plan, ops, solo):
    """The session with copies; a failing call is one planned against the count
    of its opportunities in the session of its model alone."""
    s = Session(plan)
    out, hits = [], []
    for i, op in enumerate(ops):
        f = None
        c = solo.get(op["m"], {}).get(i)
        if op.get("fault") and c and c.get("count") and "ok" in c:
            f = seams.Fault(op["fault"]["kind"], at(op["fault"], c["count"]))
        s.model(op["m"]) if op["m"] == 0 else None
        r = s.do(op, f)
        e = {k: v for k, v in r.items() if k != "val" or keeps(plan)}
        if f is not None and f.fired:
            hits.append({"op": i, "kind": f.kind, "at": f.at, "n": f.n, "of": c["count"], "swallowed": "ok" in r})
        if op["op"] == "copy" and "ok" in r:
            e["alike"] = settings(s, op["m"]) == settings(s, op["m2"])
        out.append(e)
    return out, hits


def alone(plan, ops, life):
    s = Session(plan)
    out = {}
    for i in life:
        op = dict(ops[i], m=0)
        f = seams.Fault(op["fault"]["kind"], 0) if op.get("fault") else None
        r = s.do(op, f)
        out[i] = {k: v for k, v in r.items() if k != "val" or keeps(plan)}
        if f is not None:
            out[i]["count"] = f.count
    return out


def run(plan):
    if plan.get("still"):
        return run_still(plan)
    st, viol = Stats(), []
    ops, kind = plan["ops"], plan["models"][0]["kind"]
    life = lineages(ops)
    solo = {m: isolate(alone, plan, ops, life[m]) for m in life}
    try:
        out, hits = isolate(together, plan, ops, solo)
    except Crashed:
        if all(o["fault"]["kind"] != "alloc" for o in ops if o.get("fault")):
            raise
        st.count["processes lost to a failed allocation"] += 1
        return report(plan, [], st)
    st.outcomes(ops, [{k: v for k, v in r.items() if k != "val"} for r in out], plan)
    count_faults(st, hits)
    lost, compared = {}, 0
    for i, (op, r) in enumerate(zip(ops, out)):
        m = op["m"]
        if op["op"] == "copy":
            if "ok" not in r:
                viol.append({"sig": "copy-fails", "msg": "%s: %s fails: %s %s" % (kind, show(op), r["err"], r.get("msg")), "trace": trace(ops, hits)})
                break
            if m in lost:
                lost[op["m2"]] = lost[m]
            elif not r["alike"]:
                viol.append({"sig": "copy-differs", "msg": "%s: the copy made by %s has not the settings and state of its source" % (kind, show(op)),
                             "trace": trace(ops, hits)})
                break
            continue
        if any(h["op"] == i for h in hits):
            lost[m] = i            # what a model is after its own failed call is judged elsewhere
            continue
        if m in lost:
            continue
        compared += 1
        if not same(r, solo[m][i]) and not ("val" in r and "val" in solo[m][i] and close(r["val"], solo[m][i]["val"])):
            viol.append({"sig": "not-independent " + kind, "msg": "%s: %s gave %s, but %s when this model lives through its history alone" % (
                kind, show(op), result_of(r), result_of(solo[m][i])), "trace": trace(ops[:i + 1], hits)})
            break
    st.count["results of copies and sources compared"] += compared
    st.count["copies"] += sum(o["op"] == "copy" for o in ops)
    nontriv = digest([[r.get("ok") for r in out], [(h["op"], h["kind"], h["n"]) for h in hits]]) if len(life) > 1 and compared > 3 else None
    return report(plan, viol, st, nontriv, {"models": plan["models"][:1], "data": plan["data"], "ops": trace(ops, hits)})


gen_only, gen_run, run = entry(gen, run)
