"""P01: a seed fixes every result exactly.

One session runs in a pristine process and again in a disturbed one: another
interpreter with another hash seed, or the same image, after other models were
trained and scored there, after other draws from the shared generators, and
with other contents in all uninitialised memory.  Nothing but the model's own
seed sets the random streams.  Wherever the plan assigns the seed again, the
disturbed process makes more foreign draws just before.  All results must be
bit-identical.  Sessions which differ in nothing but the seed must differ in
their results, for the kinds which draw randomly."""
from .base import *
from .. import zygote


def gen(rng, tier):
    spec = draw_model(rng, ALL_KINDS, tier)
    data = draw_data(rng, rng.randint(1, 3), tier)
    other = [draw_model(rng, ALL_KINDS, tier) for _ in range(rng.randint(1, 2))]
    plan = {"models": [spec] + other, "data": data}
    fix_data_for(plan)
    nd = len(data)
    make = {"op": "make", "m": 0}
    ops = [make, op_base(rng, "fit", 0, rng.randrange(nd), iters=rng.randint(1, 8), persist=rng.random() < .3)]
    for _ in range(rng.randint(1, 6)):
        r = rng.random()
        d = rng.randrange(nd)
        if r < 0.3:
            ops.append(op_base(rng, "fit", 0, d, iters=rng.randint(1, 6), persist=rng.random() < .3))
        elif r < 0.4:
            ops.append(op_base(rng, "fit_transform", 0, d, iters=rng.randint(1, 6)))
        elif r < 0.55:
            ops.append({"op": "reseed", "m": 0, "value": rng.choice([spec["seed"], draw_seed(rng)])})
        elif r < 0.65:
            ops.append(op_base(rng, rng.choice(["fit", "transform"]), 0, d, iters=rng.randint(1, 5), resume=True))
        else:
            ops.append(draw_inference(rng, 0, d, spec))
    ops.append(op_base(rng, "components", 0, 0))
    plan["ops"] = ops
    plan["poison"] = [rng.choice(POISONS) for _ in range(2)]
    noise = []
    for j, o in enumerate(other):
        d = rng.randrange(nd)
        noise.append(op_base(rng, "fit", j + 1, d, iters=rng.randint(1, 4)))
        noise.append(draw_inference(rng, j + 1, rng.randrange(nd), o))
    plan["faults"] = noise       # the disturbance, which minimising may drop
    plan["noise_seed"] = draw_seed(rng)
    plan["peer"] = rng.random() < 0.5
    plan["mode"] = "seeds" if rng.random() < 0.15 else "repeat"
    if plan["mode"] == "seeds":
        plan["other_seed"] = draw_seed(rng) if rng.random() < .4 else spec["seed"] ^ (1 << rng.randrange(30))
        data[0].update(D=rng.randint(8, 30), T=rng.randint(12, 40), rate=rng.choice([1.0, 2.0]))
        for d in data:
            d["T"] = data[0]["T"]
        plan["ops"] = [make, op_base(rng, "fit", 0, 0, iters=rng.randint(1, 3)), op_base(rng, "components", 0, 0)]
    return plan


def session(plan, disturbed, seed=None):
    if seed is not None:
        plan = dict(plan, models=[dict(plan["models"][0], seed=seed)] + plan["models"][1:])
    simalloc = seams.simalloc
    seams.seed_all(101)
    simalloc.set_pattern(plan["poison"][1 if disturbed else 0], plan["noise_seed"] if disturbed else 5)
    if disturbed:
        n = Session(plan)
        for op in plan["faults"]:
            n.do(op)
        simalloc.set_pattern(plan["poison"][1], plan["noise_seed"])
    s = Session(plan, own_rng=False)
    rs = np.random.RandomState(plan["noise_seed"])
    for op in plan["ops"]:
        for k in ("d",):
            if k in op:
                s.ds(op[k])
    out = []
    for op in plan["ops"]:
        op = {k: v for k, v in op.items() if k != "poison"}
        if disturbed and op["op"] in ("make", "reseed"):
            np.random.seed(rs.randint(2 ** 31))
            np.random.rand(rs.randint(1, 50))
            seams.shim.sim_seed(int(rs.randint(2 ** 31 - 1)))
        r = s.do(op)
        out.append({k: v for k, v in r.items() if k != "val"})
    return out


def run(plan):
    st = Stats()
    ops, kind = plan["ops"], plan["models"][0]["kind"]
    base = isolate(session, plan, False)
    st.outcomes(ops, base, plan)
    viol = []
    if plan["mode"] == "seeds":
        if plan["models"][0]["K"] >= 2 and plan["other_seed"] != plan["models"][0]["seed"]:
            other = isolate(session, plan, False, plan["other_seed"])
            st.count["pairs of different seeds"] += 1
            if "ok" in base[-1] and same(base[-1], other[-1]):
                viol.append({"sig": "seed-ignored", "msg": "%s: seeds %d and %d gave identical topics" % (
                    kind, plan["models"][0]["seed"], plan["other_seed"])})
    else:
        if plan["peer"]:
            other = zygote.peer.call("vsim.props.p01", "session", plan, True)
            st.count["compared across hash seeds"] += 1
        else:
            other = isolate(session, plan, True)
            st.count["compared within one image"] += 1
        st.faults["foreign operations before the session"] += len(plan["faults"])
        st.faults["memory poisoned"] += 1
        for op, a, b in zip(ops, base, other):
            if not same(a, b):
                viol.append({"sig": "not-repeatable " + op["op"],
                             "msg": "%s: %s gave %s, but %s in a disturbed process (%s)" % (
                                 kind, show(op), result_of(a), result_of(b),
                                 "other hash seed" if plan["peer"] else "same image"),
                             "trace": ["session: " + show(o) for o in ops] +
                                      ["before it in the disturbed process: " + show(o) for o in plan["faults"]]})
                break
    good = [r.get("ok") for r in base]
    return report(plan, viol, st, digest(good) if "ok" in base[1] else None,
                  {"models": plan["models"], "data": plan["data"], "ops": [show(o) for o in ops],
                   "disturbance": [show(o) for o in plan["faults"]]})


gen_only, gen_run, run = entry(gen, run)
