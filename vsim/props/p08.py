"""P08: interleaved callers get the results they would get alone.

Callers are real threads of which the simulator lets exactly one run; it
switches between them at planned lines of the repository's code.  They train
and use their own models (of any kinds, on their own or on shared datasets), or
share a trained model to transform and score."""
from .base import *

MODS = SEEDED_MODS + ("mod:lda_cvb0", "mod:lda_cvb", "mod:lda_vb", "mod:lda_vb_python", "mod:lda_gibbs",
                      "mod:mom_em", "mod:mom_gibbs")


def gen(rng, tier):
    n = rng.choice([2, 2, 2, 3, 3, 4])
    shared = rng.random() < .45
    T = rng.randint(6, 40)
    mod = rng.random() < .25
    kinds = MODS if mod else ALL_KINDS
    same_kind = rng.random() < .6
    first = draw_model(rng, kinds, tier)
    models = [first]
    if not shared:
        for _ in range(n - 1):
            m = draw_model(rng, (first["kind"],) if same_kind else kinds, tier)
            if same_kind and rng.random() < .4:
                m["K"] = first["K"]
            models.append(m)
    data = draw_data(rng, rng.randint(1, 3), tier, T=T, small=True)
    for d in data:
        d.pop("long", None)
        d["rate"] = max(d["rate"], .3)
    plan = {"models": models, "data": data, "shared": shared, "share_data": shared or rng.random() < .5, "seed": draw_seed(rng)}
    fix_data_for(plan)
    nd = len(data)
    if shared:
        plan["setup"] = [op_base(rng, "fit", 0, rng.randrange(nd), poison=False, iters=rng.randint(1, 5))]
    callers = []
    for c in range(n):
        m = 0 if shared else c
        spec = models[m]
        ops = []
        if not shared:
            ops.append(op_base(rng, "fit", m, rng.randrange(nd), poison=False, iters=rng.randint(1, 4), persist=not mod and rng.random() < .4))
        for _ in range(rng.randint(1, 3)):
            d = rng.randrange(nd)
            if not shared and rng.random() < .3:
                op = op_base(rng, "fit" if mod or rng.random() < .7 else "fit_transform", m, d, poison=False, iters=rng.randint(1, 3))
            else:
                op = draw_inference(rng, m, d, spec)
                op.pop("poison", None)
                if "iters" in op:
                    op["iters"] = min(op["iters"], 4)
                if shared and not mod:
                    op["persist"] = False
                    if op.get("with") == "qs":
                        op["with"] = "none"
            ops.append(op)
        callers.append({"ops": ops})
    plan["callers"] = callers
    sw = []
    for _ in range(rng.choice([1, 2, 3, 5, 8, 16, 40])):
        sw.append([round(rng.random(), 6), rng.randrange(n), rng.choice([1, 1, 1, 2, 6, 30])])
    plan["switches"] = sw
    plan["kills"] = [round(rng.random(), 6)] if rng.random() < .25 else []
    return plan


def prepare(plan):
    """The sessions of all callers, after the common setup."""
    base = Session(plan)
    for op in plan.get("setup", []):
        base.do(op)
    out = []
    for c in plan["callers"]:
        s = Session(plan)
        if plan["shared"]:
            s.models = dict(base.models)
        if plan["share_data"]:
            for i in range(len(plan["data"])):
                base.ds(i)
            s.data = base.data
        else:
            s.data = {i: make_data(d) for i, d in enumerate(plan["data"])}
        out.append(s)
    return out


def body(s, ops):
    def go():
        return [{k: v for k, v in s.do(op).items() if k != "val"} for op in ops]
    return go


def alone(plan, c):
    s = prepare(plan)[c]
    sch = seams.Scheduler([body(s, plan["callers"][c]["ops"])], [], plan["seed"])
    r = sch.run()
    return r[0], sch.step


def together(plan, total):
    ss = prepare(plan)
    n = len(ss)
    switches = {}
    for frac, to, burst in plan["switches"]:
        at = 1 + int(frac * total)
        for j in range(burst):
            switches[at + j] = (to + j) % n
    sch = seams.Scheduler([body(s, c["ops"]) for s, c in zip(ss, plan["callers"])], switches, plan["seed"],
                          [1 + int(f * total) for f in plan.get("kills", [])])
    r = sch.run()
    return r, sch.switched, sch.trace, sch.killed


def run(plan):
    st, viol = Stats(), []
    n = len(plan["callers"])
    solo = [isolate(alone, plan, c) for c in range(n)]
    total = sum(s for _, s in solo)
    for c, (r, _) in enumerate(solo):
        if isinstance(r, tuple):
            raise RuntimeError("caller alone: %s" % (r,))
        st.outcomes(plan["callers"][c]["ops"], r, plan)
    got, switched, trace, killed = isolate(together, plan, total)
    st.count["callers"] += n
    st.count["context switches"] += switched
    st.count["shared models" if plan["shared"] else "own models"] += 1
    st.faults["context switch"] += switched
    st.faults["interrupt"] += len(killed)
    st.sets["switch points"].update(trace[:400])
    st.sets["interleavings"].add(digest(trace))
    for c in range(n):
        ops = plan["callers"][c]["ops"]
        if isinstance(got[c], tuple) and c in killed and got[c][1] == "SimInterrupt":
            continue        # struck while creating its model
        if isinstance(got[c], tuple):
            viol.append({"sig": "caller-died", "msg": "caller %d died with %s: %s" % (c, got[c][1], got[c][2])})
            break
        for op, a, b in zip(ops, solo[c][0], got[c]):
            if b.get("err") == "SimInterrupt" and c in killed:
                break
            if not same(a, b):
                kind = plan["models"][op["m"]]["kind"]
                viol.append({"sig": "interleaved " + kind, "msg": "%s: with %d callers%s, %s of caller %d gave %s, but %s alone" % (
                    kind, n, " sharing the model" if plan["shared"] else "", show(op), c, result_of(b), result_of(a)),
                    "trace": ["caller %d: %s" % (i, "; ".join(show(o) for o in q["ops"])) for i, q in enumerate(plan["callers"])] +
                    ["switched at " + ", ".join(trace[:30])] + (["interrupted: %s" % killed] if killed else [])})
                break
        if viol:
            break
    ok = any("ok" in r for x, _ in solo for r in x)
    return report(plan, viol, st, digest([[r.get("ok") for r in x] for x, _ in solo] + [trace]) if ok and switched > n - 1 else None,
                  {"models": plan["models"], "shared": plan["shared"], "callers": [[show(o) for o in q["ops"]] for q in plan["callers"]],
                   "switched": trace[:10]})


gen_only, gen_run, run = entry(gen, run)
