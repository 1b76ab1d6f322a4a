"""P02: inference leaves the trained model as it was.

One session is run twice with the same random draws per operation: once as
planned, once with every transform and score that is not a probe erased.  All
remaining operations must give bit-identical results, and the topics must be
bit-identical before and after each inference call."""
from .base import *


def gen(rng, tier):
    mod = rng.random() < 0.3
    kinds = SEEDED_MODS + ("mod:lda_cvb0", "mod:lda_cvb", "mod:lda_vb", "mod:lda_vb_python", "mod:lda_gibbs",
                           "mod:mom_em", "mod:mom_gibbs") if mod else ALL_KINDS
    plan = {"models": [draw_model(rng, kinds, tier)], "data": draw_data(rng, rng.randint(2, 4), tier)}
    fix_data_for(plan)
    spec, nd = plan["models"][0], len(plan["data"])
    ops = [op_base(rng, "fit", 0, 0, iters=rng.randint(1, 10), keep=True)]
    chain = None
    for _ in range(rng.randint(3, 9 if tier == "quick" else 16)):
        r = rng.random()
        if r < 0.6:
            op = draw_inference(rng, 0, rng.randrange(nd), spec)
            if op["op"] == "transform" and not mod and spec["kind"] != "HDP" and rng.random() < .3:
                op.update(op="infer", persist=False)
            if chain is not None and op["op"] == "transform":
                continue
            ops.append(op)
        elif r < 0.75:
            ops.append(op_base(rng, "fit", 0, rng.randrange(nd), iters=rng.randint(1, 8), keep=True))
            chain = None
        elif mod or r < 0.9:
            ops.append(op_base(rng, "transform", 0, rng.randrange(nd), iters=rng.randint(1, 6), keep=True))
            chain = None
        elif chain is None:
            chain = rng.randrange(nd)
            ops.append(op_base(rng, rng.choice(["transform", "fit"]), 0, chain, iters=rng.randint(1, 6),
                               persist=True, keep=True))
        else:
            ops.append(op_base(rng, rng.choice(["transform", "transform", "fit"]), 0, chain,
                               iters=rng.randint(1, 6), resume=True, keep=True))
            chain = None
    d = rng.randrange(nd)
    ops += [op_base(rng, "components", 0, d, keep=True),
            op_base(rng, "transform", 0, d, iters=rng.randint(1, 6), keep=True)]
    if not mod:
        ops.append(op_base(rng, "score", 0, rng.randrange(nd), method=rng.choice(POINT_METHODS), keep=True,
                           **{"with": "none"}))
    ops.append(op_base(rng, "fit", 0, rng.randrange(nd), iters=3, keep=True))
    plan["ops"] = ops
    return plan


def probe(s, op):
    return components_of(s, 0)


def run(plan):
    st = Stats()
    ops = plan["ops"]
    kept = [op for op in ops if op.get("keep")]
    full = isolate(run_ops, plan, ops, None, None, probe)
    bare = isolate(run_ops, plan, kept)
    st.outcomes(ops, full, plan)
    viol = []
    kind = plan["models"][0]["kind"]
    before = None
    for op, r in zip(ops, full):
        if op["op"] in ("transform", "score", "components", "infer") and before is not None and r["probe"] != before:
            viol.append({"sig": "topics-changed " + op["op"],
                         "msg": "%s: %s changed the model's topics" % (kind, show(op))})
            break
        before = r["probe"]
    for op, r, b in zip(kept, [r for op, r in zip(ops, full) if op.get("keep")], bare):
        if not same(r, b):
            viol.append({"sig": "later-result " + op["op"],
                         "msg": "%s: %s gave %s, but %s had the transforms and scores before it not been made" %
                                (kind, show(op), result_of(r), result_of(b)),
                         "trace": [show(o) + ("" if o.get("keep") else "   <- erased in the other run") for o in ops]})
            break
    erased = [(o, r) for o, r in zip(ops, full) if not o.get("keep") and "ok" in r]
    st.count["inferences erased"] += len(erased)
    nontriv = digest([r.get("ok") for r in full]) if erased and "ok" in full[-1] else None
    return report(plan, viol, st, nontriv, {"models": plan["models"], "data": plan["data"], "ops": [show(o) for o in ops]})


gen_only, gen_run, run = entry(gen, run)
