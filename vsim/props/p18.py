"""P18: watching training does not change it.

One history of fits, continuations, copies and inferences is run without
progress measurement and with it at two other planned intervals.  Every result
must be bit-identical, every run must do the requested iterations, and what
both measure at the end must agree."""
from .base import *
from ..world import wrapper

KINDS = ("LDA_CVB0", "LDA_CVB", "LDA_VB", "LDA_CVB0", "LDA_CVB", "LDA_VB", "LDA_VB_PYTHON_IMPL", "LDA_GIBBS", "MOM_VB", "MOM_GIBBS")
MODS = ("mod:ctm", "mod:ctm_bohning", "mod:ctm_grad_arb", "mod:stm_yv", "mod:stm_yv_bohning", "mod:mtm3", "mod:lda_cvb0", "mod:lda_cvb", "mod:lda_vb", "mod:lda_vb_python")
MOST = 20      # iterations before which no kind stops early


def gen(rng, tier):
    mod = rng.random() < .35
    plan = {"models": [draw_model(rng, MODS if mod else KINDS, tier)], "data": draw_data(rng, rng.randint(1, 3), tier, T=rng.randint(6, 60))}
    fix_data_for(plan)
    spec, nd, kept, ops = plan["models"][0], len(plan["data"]), None, []
    spec.pop("logf", None)
    for j in range(rng.randint(1, 5)):
        d, r = rng.randrange(nd), rng.random()
        n = rng.randint(1, MOST)
        if j == 0 or r < .5:
            op = op_base(rng, "fit", 0, d, iters=n, persist=not mod and rng.random() < .5)
            if kept is not None and rng.random() < .4:
                op.update(d=kept, resume=True)
        elif not mod and kept is not None and r < .7:
            op = op_base(rng, "transform", 0, kept, iters=n, resume=True, persist=rng.random() < .6)
        else:
            op = draw_inference(rng, 0, d, spec)
            if op["op"] == "transform":
                op["iters"] = n
                op["persist"] = not mod and rng.random() < .5
        if op["op"] in ("fit", "transform"):
            kept = op["d"] if op.get("persist") else None
        ops.append(op)
    ops.append(op_base(rng, "transform", 0, rng.randrange(nd), iters=rng.randint(1, MOST)))
    plan["ops"] = ops
    plan["every"] = rng.sample([1, 2, 3, 4, 5, 6, 7, 9, 10, 13, 19, 20, 21, 50], 2)
    return plan


class Count:
    """Adds up the iterations asked of a compiled kernel."""

    def __init__(self, session):
        self.n, self.undo = 0, []
        m = session.model(0)
        module = m.mdl if hasattr(m, "mdl") else wrapper.TopicModelType[m.spec["kind"]].value
        lib = getattr(module, "compiled", None)
        for name in ("iterate_f32", "iterate_f64"):
            fn = getattr(lib, name, None)
            if fn is not None and m.spec["kind"].replace("mod:", "").lower() in ("lda_cvb0", "lda_cvb", "lda_vb"):
                self.undo.append((lib, name, fn))
                setattr(lib, name, self.wrap(fn))

    def wrap(self, fn):
        def counted(iterations, *args):
            self.n += int(iterations)
            return fn(iterations, *args)
        return counted

    def stop(self):
        for lib, name, fn in self.undo:
            setattr(lib, name, fn)


def session(plan, ops, every):
    p = dict(plan, models=[dict(plan["models"][0], logf=every)])
    s = Session(p)
    if every:
        m = s.model(0)
        if isinstance(m, Mod):
            m.plan = lambda n, m=m: m.mdl.newTrainPlan(n, logFrequency=every)
    else:
        m = s.model(0)
        if isinstance(m, Mod):
            m.plan = lambda n, m=m: m.mdl.newTrainPlan(n, logFrequency=0)
    out = []
    for op in ops:
        c = Count(s)
        try:
            r = s.do(op)
        finally:
            c.stop()
        e = {k: v for k, v in r.items() if k != "val"}
        e["n"] = c.n if c.undo else None
        if "ok" in r and op["op"] == "fit" and not isinstance(s.models[0], Mod):
            f = s.models[0].m.fit_metrics_
            try:
                e["last"] = [float(f.iters[-1]), digest([float(f.bound_values[-1]), float(f.likelihood_values[-1])])] if len(f.iters) else None
            except TypeError:
                e["last"] = None
        out.append(e)
    return out


def run(plan):
    st, viol = Stats(), []
    ops, kind = plan["ops"], plan["models"][0]["kind"]
    if any(op.get("iters", 0) > MOST for op in ops):
        raise Invalid()
    runs = {0: isolate(session, plan, ops, 0)}
    st.outcomes(ops, runs[0], plan)
    for every in plan["every"]:
        runs[every] = isolate(session, plan, ops, every)
    compared = 0
    quiet = runs[0]
    for every, out in runs.items():
        for i, (op, r, q) in enumerate(zip(ops, out, quiet)):
            bad = None
            if not same(r, q):
                bad = "%s gave %s measuring every %d iterations, but %s without" % (show(op), result_of(r), every, result_of(q))
            elif "ok" in r and op["op"] in ("fit", "transform") and r["n"] is not None and r["n"] not in (0, iters_of(op, plan["models"][0])):
                bad = "%s made %d iterations measuring every %d" % (show(op), r["n"], every)
            elif r.get("last") and q.get("last") and kind in ("LDA_CVB0", "LDA_CVB", "LDA_VB") and r["last"] != q["last"]:
                bad = "the last measurement of %s is %s every %d, but %s without" % (show(op), r["last"], every, q["last"])
            if bad:
                viol.append({"sig": "watched " + kind, "msg": "%s: %s" % (kind, bad), "trace": [show(o) for o in ops[:i + 1]]})
                break
            compared += "ok" in r
        if viol:
            break
    st.count["results compared"] += compared
    st.sets["intervals"].update(str(e) for e in plan["every"])
    return report(plan, viol, st, digest([[r.get("ok") for r in quiet], plan["every"]]) if compared else None,
                  {"models": plan["models"], "data": plan["data"], "ops": [show(o) for o in ops], "every": plan["every"]})


gen_only, gen_run, run = entry(gen, run)
