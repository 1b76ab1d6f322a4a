"""P04: training is all or nothing."""
from .faulty import *


def gen(rng, tier):
    plan = {"models": [draw_model(rng, ALL_KINDS, tier)], "data": draw_data(rng, rng.randint(1, 3), tier)}
    fix_data_for(plan)
    spec, nd = plan["models"][0], len(plan["data"])
    ops, kept = [], None
    for j in range(rng.randint(1, 5)):
        r, d = rng.random(), rng.randrange(nd)
        if j == 0 or r < 0.7:
            op = op_base(rng, "fit", 0, d, iters=rng.randint(1, 8), persist=rng.random() < .4)
            if kept is not None and rng.random() < .5:
                op.update(d=kept, resume=True)
            if rng.random() < 0.65:
                op["fault"] = draw_fault(rng)
            kept = op["d"] if op["persist"] else None
        elif kept is not None and r < 0.85:
            op = op_base(rng, "transform", 0, kept, iters=rng.randint(1, 6), resume=True, persist=rng.random() < .6)
            kept = kept if op["persist"] else None
        else:
            op = draw_inference(rng, 0, d, spec)
            if op["op"] == "transform":
                kept = d if op.get("persist") else None
        ops.append(op)
    if not any(o.get("fault") for o in ops):
        rng.choice([o for o in ops if o["op"] == "fit"])["fault"] = draw_fault(rng)
    ops += [op_base(rng, "transform", 0, rng.randrange(nd), iters=3),
            op_base(rng, "score", 0, rng.randrange(nd), method="perplexity_point", **{"with": "none"}),
            op_base(rng, "fit", 0, rng.randrange(nd), iters=2)]
    plan["ops"] = ops
    if rng.random() < .4:
        abandon(rng, ops)
        plan["abandon"] = True
    return plan


def probe(s, op):
    return components_of(s, 0)


def after_fault(s, op):
    """An untrained model must still refuse to transform."""
    if components_of(s, 0) is None:
        r = s.do(dict(op, op="transform", fault=None, resume=False, persist=False, iters=2))
        return "ok" in r
    return False


def run(plan):
    st = Stats()
    ops, kind = plan["ops"], plan["models"][0]["kind"]
    clean = isolate(clean_session, plan, ops, (), probe)
    st.outcomes(ops, clean, plan)
    viol = []
    if plan.get("abandon"):
        try:
            hits = run_abandoned(plan, kind, ops, clean, probe, st, viol, False)
        except Crashed:
            if all(o["fault"]["kind"] != "alloc" for o in ops if o.get("fault")):
                raise
            st.count["processes lost to a failed allocation"] += 1
            return report(plan, [], st)
        return report(plan, viol, st, digest([[r.get("ok") for r in clean], [(h["op"], h["kind"], h["n"]) for h in hits]]) if hits else None,
                      {"models": plan["models"], "data": plan["data"], "ops": trace(ops, hits), "then": "the failed call is not repeated"})
    try:
        out, hits = isolate(faulted_session, plan, ops, clean, probe, True, after_fault)
    except Crashed:
        if all(o["fault"]["kind"] != "alloc" for o in ops if o.get("fault")):
            raise
        st.count["processes lost to a failed allocation"] += 1
        return report(plan, [], st)
    count_faults(st, hits)
    stop = len(ops)
    for h in hits:
        i = h["op"]
        st.count["fits failed untrained" if h["before"] is None else "fits failed trained"] += 1
        if h["swallowed"]:
            stop = min(stop, i)
        elif h.get("extra"):
            viol.append({"sig": "half-trained", "msg": "%s: after its first fit failed by %s, the model transforms" % (kind, show_fault(h)),
                         "trace": trace(ops, hits)})
        elif h["after"] != h["before"]:
            if h["after"] == clean[i]["probe"]:
                stop = min(stop, i)  # the fit had been completed
                st.count["fits completed despite the fault"] += 1
            else:
                viol.append({"sig": "half-trained", "msg": "%s: %s, failed by %s, left topics which are neither the old nor the new ones" % (
                    kind, show(ops[i]), show_fault(h)), "trace": trace(ops, hits)})
    if not viol:
        for i, (op, r) in enumerate(zip(ops, out)):
            if i >= stop:
                break
            if not same(r, clean[i]) or r["probe"] != clean[i]["probe"]:
                f = [h for h in hits if h["op"] <= i]
                if not f:
                    raise RuntimeError("sessions differ before any fault at " + show(op))
                viol.append({"sig": "later-result " + op["op"], "msg": "%s: after %s failed by %s, %s gave %s, but %s had it not failed" % (
                    kind, show(ops[f[-1]["op"]]), show_fault(f[-1]), "repeating it" if f[-1]["op"] == i else show(op),
                    result_of(r), result_of(clean[i])), "trace": trace(ops, hits)})
                break
    nontriv = digest([[r.get("ok") for r in clean], [(h["op"], h["kind"], h["n"]) for h in hits]]) if hits else None
    return report(plan, viol, st, nontriv, {"models": plan["models"], "data": plan["data"], "ops": trace(ops, hits)})


gen_only, gen_run, run = entry(gen, run)
