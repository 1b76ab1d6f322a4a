"""P03: a failed or interrupted inference call changes nothing."""
from .faulty import *

KINDS = ALL_KINDS


def gen(rng, tier):
    mod = rng.random() < 0.2
    kinds = SEEDED_MODS + ("mod:lda_cvb0", "mod:lda_cvb", "mod:lda_vb", "mod:lda_vb_python", "mod:lda_gibbs") if mod else KINDS
    plan = {"models": [draw_model(rng, kinds, tier)], "data": draw_data(rng, rng.randint(2, 3), tier)}
    fix_data_for(plan)
    spec, nd = plan["models"][0], len(plan["data"])
    ops = [op_base(rng, "fit", 0, 0, iters=rng.randint(1, 8), persist=not mod and rng.random() < .4)]
    resumable = 0 if ops[0].get("persist") else None
    for _ in range(rng.randint(2, 6)):
        r = rng.random()
        d = rng.randrange(nd)
        if r < 0.15:
            op = op_base(rng, "fit", 0, d, iters=rng.randint(1, 5), persist=not mod and rng.random() < .4)
            resumable = d if op.get("persist") else None
        elif not mod and resumable is not None and r < 0.5:
            op = op_base(rng, "transform", 0, resumable, iters=rng.randint(1, 6), resume=True, persist=rng.random() < .7)
            resumable = resumable if op["persist"] else None
        else:
            op = draw_inference(rng, 0, d, spec)
            if op["op"] == "transform" and not mod:
                op["persist"] = rng.random() < .5
                resumable = d if op["persist"] else None
        if op["op"] != "fit" and rng.random() < 0.55:
            op["fault"] = draw_fault(rng)
        ops.append(op)
    if not any(o.get("fault") for o in ops):
        op = op_base(rng, "transform", 0, rng.randrange(nd), iters=rng.randint(1, 6), fault=draw_fault(rng))
        ops.append(op)
    ops += [op_base(rng, "transform", 0, rng.randrange(nd), iters=3), op_base(rng, "fit", 0, rng.randrange(nd), iters=2)]
    plan["ops"] = ops
    if not mod and rng.random() < 0.4:
        # no repeat: the failed call is followed by a request to continue
        plan["then"] = [op_base(rng, "transform", 0, d, iters=rng.randint(1, 5), resume=True) for d in range(nd)]
        i = rng.choice([i for i, o in enumerate(ops) if o.get("fault")])
        for j, o in enumerate(ops):
            if j != i:
                o.pop("fault", None)
        plan["ops"] = ops[:i + 1]
        if i and ops[i - 1]["op"] in ("fit", "transform") and rng.random() < .7:
            ops[i - 1]["persist"] = True
    elif rng.random() < .4:
        abandon(rng, ops)
        plan["abandon"] = True
    return plan


def probe(s, op):
    return components_of(s, 0)


def then_session(plan, ops, clean, how, d):
    """Continue on dataset d after: the fault ('fault'), the call having
    completed ('done') or not having been made ('never')."""
    s = Session(plan)
    last = len(ops) - 1
    hit = None
    for i, op in enumerate(ops):
        if i < last:
            s.do(op)
        elif how == "done":
            s.do(op)
        elif how == "fault":
            f = seams.Fault(op["fault"]["kind"], at(op["fault"], clean[i]["count"]))
            r = s.do(op, f)
            if not f.fired or "ok" in r:
                return None, None
            hit = {"op": i, "kind": f.kind, "at": f.at, "n": f.n, "of": clean[i]["count"], "swallowed": False}
    r = s.do(plan["then"][d])
    return {k: v for k, v in r.items() if k != "val"}, hit


def run(plan):
    st = Stats()
    ops, kind = plan["ops"], plan["models"][0]["kind"]
    clean = isolate(clean_session, plan, ops, (), probe)
    st.outcomes(ops, clean, plan)
    viol = []
    if plan.get("then"):
        last = ops[-1]
        hits = []
        if last.get("fault") and clean[-1].get("count") and "ok" in clean[-1]:
            for d in range(len(plan["data"])):
                try:
                    r, hit = isolate(then_session, plan, ops, clean, "fault", d)
                except Crashed:
                    st.count["processes lost to a failed allocation"] += 1
                    if last["fault"]["kind"] != "alloc":
                        raise
                    break
                if hit is None:
                    break
                hits.append(hit)
                if "ok" not in r:
                    st.count["continuations refused"] += 1
                    continue
                st.count["continuations granted"] += 1
                allowed = [isolate(then_session, plan, ops, clean, h, d)[0] for h in ("never", "done")]
                if not any(same(r, a) for a in allowed):
                    viol.append({"sig": "continued-from-half", "msg":
                                 "%s: after %s failed by %s, %s continued from a state which no completed call left" % (
                                     kind, show(last), show_fault(hit), show(plan["then"][d])), "trace": trace(ops, [hit])})
                    break
        count_faults(st, hits[:1])
        return report(plan, viol, st, digest([clean[-1], hits and hits[0]["at"], hits and hits[0]["n"]]) if hits else None,
                      {"models": plan["models"], "ops": trace(ops, hits[:1]), "then": "continue on each dataset"})
    if plan.get("abandon"):
        try:
            hits = run_abandoned(plan, kind, ops, clean, probe, st, viol, True)
        except Crashed:
            if all(o["fault"]["kind"] != "alloc" for o in ops if o.get("fault")):
                raise
            st.count["processes lost to a failed allocation"] += 1
            return report(plan, [], st)
        return report(plan, viol, st, digest([[r.get("ok") for r in clean], [(h["op"], h["kind"], h["n"]) for h in hits]]) if hits else None,
                      {"models": plan["models"], "data": plan["data"], "ops": trace(ops, hits), "then": "the failed call is not repeated"})
    try:
        out, hits = isolate(faulted_session, plan, ops, clean, probe)
    except Crashed:
        if all(o["fault"]["kind"] != "alloc" for o in ops if o.get("fault")):
            raise
        st.count["processes lost to a failed allocation"] += 1
        return report(plan, [], st)
    count_faults(st, hits)
    for h in hits:
        if h["before"] != h["after"]:
            viol.append({"sig": "topics-changed", "msg": "%s: %s, failed by %s, changed the model's topics" % (
                kind, show(ops[h["op"]]), show_fault(h)), "trace": trace(ops, hits)})
            break
    if not viol:
        for i, (op, r) in enumerate(zip(ops, out)):
            h = next((h for h in hits if h["op"] == i), None)
            if h and h["swallowed"]:
                break
            if not same(r, clean[i]) or r["probe"] != clean[i]["probe"]:
                f = [h for h in hits if h["op"] <= i]
                if not f:
                    raise RuntimeError("sessions differ before any fault at " + show(op))
                viol.append({"sig": "later-result " + op["op"], "msg": "%s: after %s failed by %s, %s gave %s, but %s had it not failed" % (
                    kind, show(ops[f[-1]["op"]]), show_fault(f[-1]), "repeating it" if h else show(op), result_of(r), result_of(clean[i])),
                    "trace": trace(ops, hits)})
                break
    nontriv = digest([[r.get("ok") for r in clean], [(h["op"], h["kind"], h["n"]) for h in hits]]) if hits else None
    return report(plan, viol, st, nontriv, {"models": plan["models"], "data": plan["data"], "ops": trace(ops, hits)})


gen_only, gen_run, run = entry(gen, run)
