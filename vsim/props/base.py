"""What the simulations share: drawing plans, running variants of a session,
and judging outcomes."""
import collections
import random

import numpy as np

from .. import seams
from ..world import Session, digest, TM_KINDS, MOD_KINDS, make_data, Mod, TM, Hdp  # noqa: F401
from ..zygote import isolate, Crashed, Hung  # noqa: F401

ALL_KINDS = TM_KINDS + ("HDP",)
POINT_METHODS = ("log_likelihood_point", "perplexity_point",
                 "doc_completion_log_likelihood_point", "doc_completion_perplexity_point")
SEEDED_MODS = ("mod:ctm", "mod:ctm_bohning", "mod:ctm_grad_arb", "mod:stm_yv", "mod:stm_yv_bohning", "mod:mtm3", "mod:lro_vb")
POISONS = (1, 2, 3, 4, 5, 6, 6, 1)


class Invalid(Exception):
    """The plan (after shrinking, say) no longer describes a session this
    property speaks about."""


def entry(gen, run):
    def gen_only(seed, i, tier, prop):
        rng = random.Random("%s/%s/%s" % (seed, prop, i))
        plan = gen(rng, tier)
        plan["prop"] = prop
        return plan

    def safe_run(plan):
        try:
            return run(plan)
        except Invalid:
            return {"viol": [], "stats": {}, "plan": plan}
        except Crashed as e:
            return {"viol": [{"sig": "process-died", "msg": "the process died: %s" % e}], "stats": {}, "plan": plan}
        except Hung as e:
            return {"viol": [{"sig": "hang", "msg": "no progress: %s" % e}], "stats": {}, "plan": plan}

    def gen_run(seed, i, tier, prop):
        return safe_run(gen_only(seed, i, tier, prop))

    return gen_only, gen_run, safe_run


# ------------------------------------------------------------ drawing plans
def draw_seed(rng):
    return rng.randrange(1, 2 ** 30)


def draw_shape(rng, tier="quick"):
    r = rng.random()
    if r < 0.6:
        return rng.randint(2, 12), rng.randint(6, 40)
    if r < 0.85:
        return rng.randint(8, 40), rng.randint(10, 80)
    return rng.randint(40, 150), rng.randint(20, 300)


def draw_data(rng, n, tier="quick", T=None, dtype=None, small=False, **kw):
    D, t = draw_shape(rng, tier)
    if small:
        D, t = rng.randint(2, 14), rng.randint(6, 40)
    T = T or t
    out = []
    for i in range(n):
        if i and rng.random() < 0.45:
            spec = dict(rng.choice(out))          # same shape, other content
            if rng.random() < 0.7:
                spec["seed"] = draw_seed(rng)
            out.append(spec)
            continue
        if i:
            D = 1 if rng.random() < .08 else rng.randint(2, 14) if small else draw_shape(rng, tier)[0]
        spec = {"D": D, "T": T, "seed": draw_seed(rng), "rate": rng.choice([0.1, 0.3, 0.5, 1.0, 2.0]),
                "dtype": dtype or rng.choice(["f8", "f8", "f4", "i4"])}
        if rng.random() < 0.15:
            spec["long"] = [[rng.randrange(D), rng.choice([60, 130, 260, 400])]]
        spec.update(kw)
        out.append(spec)
    return out


def draw_model(rng, kinds=TM_KINDS, tier="quick"):
    kind = rng.choice(kinds)
    if kind == "mod:lro_vb" and rng.random() < 0.85:  # by far the slowest
        kind = rng.choice(kinds)
    spec = {"kind": kind, "K": rng.choice([2, 2, 3, 3, 4, 5, 6, 8, 10]), "seed": draw_seed(rng),
            "iters": rng.randint(1, 12), "qiters": rng.randint(1, 8)}
    if kind.startswith("mod:"):
        spec["K"] = min(spec["K"], 6)
        return spec
    if kind.startswith("MOM"):
        spec["alpha"] = rng.choice([1.1, 1.5, 2.0, 5.0])
        spec["beta"] = rng.choice([1.05, 1.1, 1.5, 2.0])
    else:
        spec["alpha"] = rng.choice([0.05, 0.1, 0.5, 1.0, 1.1, 5.0])
        spec["beta"] = rng.choice([0.01, 0.1, 0.5, 1.0, 1.1])
    if kind == "HDP":
        return {"kind": kind, "K": spec["K"], "seed": spec["seed"], "iters": rng.choice([1, 2, 5, 50]), "qiters": 1,
                "batch": rng.choice([0, 0, 1, 3, 8])}
    if kind == "LDA_VB_PYTHON_IMPL" and rng.random() < 0.35:
        spec["batch"] = rng.randint(1, 6)
    if kind == "LDA_GIBBS" and rng.random() < 0.4:
        spec["burn"] = rng.randint(1, 4)
        spec["thin"] = rng.randint(1, 3)
    if kind != "LDA_VB_PYTHON_IMPL" and rng.random() < 0.2:
        spec["logf"] = rng.randint(1, 4)
    return spec


def fix_data_for(plan):
    """Give datasets the parts and types the planned models need."""
    mods = [m["kind"] for m in plan["models"] if m["kind"].startswith("mod:")]
    for d in plan["data"]:
        if any(k in ("mod:stm_yv", "mod:stm_yv_bohning") for k in mods):
            d["feats"] = d.get("feats") or 4
        if any(k in ("mod:mtm3", "mod:lro_vb") for k in mods):
            d["links"] = True
        if mods:
            d["dtype"] = "f4" if mods == ["mod:lda_vb"] else "f8"
            d["D"] = max(3, min(d["D"], 6 if "mod:lro_vb" in mods else 16))
            d["T"] = max(6, min(d["T"], 60))
    if "LDA_VB_PYTHON_IMPL" in [m["kind"] for m in plan["models"]]:  # slow per document
        for d in plan["data"]:
            d["D"] = min(d["D"], 30)
    if mods:
        T = plan["data"][0]["T"]
        for d in plan["data"]:
            d["T"] = T
        if "mod:mtm3" in mods or "mod:lro_vb" in mods:
            D = plan["data"][0]["D"]
            for d in plan["data"]:
                d["D"] = D
    return plan


def op_base(rng, name, m, d, poison=True, **kw):
    op = {"op": name, "m": m, "d": d, "seed": draw_seed(rng)}
    if poison:
        op["poison"] = rng.choice(POISONS)
    op.update(kw)
    if "iters" in kw and not kw.get("link") and rng.random() < .2:
        del op["iters"]      # the model's own setting
    if name in ("fit", "transform") and rng.random() < .08:
        op["burn"], op["thin"] = rng.randint(1, 4), rng.randint(1, 3)    # only Gibbs sampling heeds these
    return op


def iters_of(op, spec):
    """The iterations a planned call should make."""
    return op.get("iters") or (spec["iters"] if op["op"].startswith("fit") else spec["qiters"])


def draw_inference(rng, m, d, spec):
    """A transform or score of any kind."""
    if spec["kind"].startswith("mod:"):
        return op_base(rng, rng.choice(["transform", "transform", "score"]), m, d, iters=rng.randint(1, 6))
    if rng.random() < 0.5:
        return op_base(rng, "transform", m, d, iters=rng.randint(1, 8), persist=rng.random() < 0.3)
    methods = list(POINT_METHODS)
    if spec["kind"] == "LDA_CVB0":
        methods.append("log_likelihood_expectation")
    method = rng.choice(methods)
    how = rng.choice(["none", "y", "qs"]) if "expect" not in method else rng.choice(["none", "qs"])
    if how == "y" and spec["kind"] == "LDA_GIBBS":
        how = "none"
    return op_base(rng, "score", m, d, method=method, **{"with": how})


# ----------------------------------------------------------------- running
def run_ops(plan, ops, fault_at=None, fault=None, probe=None):
    """One session from scratch.  Returns the outcomes without their values."""
    s = Session(plan)
    out = []
    for i, op in enumerate(ops):
        f = fault() if fault_at == i else None
        r = s.do(op, f)
        r = {k: v for k, v in r.items() if k != "val"}
        if f is not None:
            r["count"], r["fired"], r["at"] = f.count, f.fired, f.at
        if probe:
            r["probe"] = probe(s, op)
        out.append(r)
    return out


def components_of(s, i):
    m = s.models.get(i)
    if m is None or not m.trained():
        return None
    return digest(m.components())


def same(a, b):
    return a.get("ok") == b.get("ok") and a.get("err") == b.get("err")


def show(op):
    if op["op"] in ("prune", "convert", "renew"):
        return str(op)
    keys = [k for k in ("m", "d", "iters", "burn", "thin", "persist", "resume", "method", "with", "seed", "m2") if op.get(k) not in (None, False)]
    return "%s(%s)" % (op["op"], ", ".join("%s=%s" % (k, op[k]) for k in keys))


def result_of(r):
    return "value %s" % r["ok"] if "ok" in r else "%s: %s" % (r.get("err"), r.get("msg", ""))


class Stats:
    def __init__(self):
        self.faults = collections.Counter()
        self.count = collections.Counter()
        self.sets = collections.defaultdict(set)

    def outcomes(self, ops, outs, plan=None):
        for op, r in zip(ops, outs):
            self.count["operations"] += 1
            self.count["op " + op["op"]] += 1
            if "err" in r:
                self.count["operations refused or failed"] += 1
                kind = plan["models"][op["m"]]["kind"] if plan and "m" in op and op["m"] < len(plan["models"]) else ""
                self.sets["errors seen"].add("%s %s %s: %s" % (kind, op["op"], r["err"], r.get("msg", "")[:60]))
            else:
                self.sets["outcomes"].add(r["ok"])

    def dump(self):
        return {"faults": dict(self.faults), "count": dict(self.count),
                "sets": {k: sorted(v) for k, v in self.sets.items()}}


def report(plan, viol, st, nontrivial=None, sample=None):
    return {"viol": viol, "stats": st.dump(), "plan": plan,
            "nontrivial": nontrivial, "sample": sample}
