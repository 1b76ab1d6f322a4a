"""P09: a saved and restored model carries on identically.

A session is stopped at planned points between calls.  What it holds (models,
datasets, mixtures and inference state, serialised together) is restored in the
same process after further, lost calls; in a fresh process; or in a fresh
interpreter with another hash seed.  Every later result must equal that of the
session which was never stopped."""
import pickle

from .faulty import *
from .. import zygote

MODS = SEEDED_MODS + ("mod:lda_cvb0", "mod:lda_cvb", "mod:lda_vb", "mod:lda_vb_python", "mod:lda_gibbs",
                      "mod:mom_em", "mod:mom_gibbs")
HOW = ("same", "same", "fresh", "fresh", "peer")


def gen(rng, tier):
    mod = rng.random() < .25
    nm = 1 if rng.random() < .8 else 2
    plan = {"models": [draw_model(rng, MODS if mod else ALL_KINDS, tier) for _ in range(nm)],
            "data": draw_data(rng, rng.randint(1, 3), tier, T=rng.randint(6, 60))}
    fix_data_for(plan)
    nd = len(plan["data"])
    ops, last = [], {}
    for i in range(rng.randint(3, 9)):
        m = rng.randrange(nm) if i else 0
        d = rng.randrange(nd)
        r = rng.random()
        if i == 0 or r < .35:
            op = op_base(rng, "fit" if mod or rng.random() < .8 else "fit_transform", m, d, iters=rng.randint(1, 6))
        else:
            op = draw_inference(rng, m, d, plan["models"][m])
        if not mod and op["op"] in ("fit", "transform"):
            op["persist"] = rng.random() < .6
            if last.get(m) is not None and rng.random() < .4:
                op["d"], op["resume"] = last[m], True
        if op["op"] in ("fit", "transform", "fit_transform"):
            last[m] = op["d"] if op.get("persist") else None
        if not mod and op["op"] == "score" and op.get("with") == "y" and rng.random() < .3:
            op = {"op": "reseed", "m": m, "value": draw_seed(rng)}
        ops.append(op)
    plan["ops"] = ops
    stops = []
    for _ in range(rng.randint(1, 3)):
        stops.append({"after": rng.randrange(len(ops)), "how": rng.choice(HOW), "proto": rng.randint(2, 5),
                      "lost": rng.randint(0, 2), "fault": draw_fault(rng) if rng.random() < .5 else None})
    plan["faults"] = sorted(stops, key=lambda s: s["after"])
    return plan


def settings(m):
    if not isinstance(m, TM):
        return None
    return digest({k: v for k, v in vars(m.m).items() if not k.startswith("_") and not k.endswith("_")
                   and k not in ("default_scoring_method", "rate_algor")} | {
                   k: str(getattr(m.m, k, None)) for k in ("default_scoring_method", "rate_algor")})


def look(s):
    return [[components_of(s, i), settings(m)] for i, m in sorted(s.models.items())]


def pack(s, proto):
    return pickle.dumps((s.models, s.data, s.qs, s.ys), protocol=proto)


def unpack(plan, blob):
    s = Session(plan)
    if blob is not None:
        s.models, s.data, s.qs, s.ys = pickle.loads(blob)
    return s


def segment(plan, lo, hi, blob, stop, inside):
    """Ops lo..hi-1 from a restored state; the state afterwards.  `inside`
    are the stops within the segment restored in the same process."""
    seams.simalloc.set_pattern(6, lo + 1)
    s = unpack(plan, blob)
    out = []
    seen = [look(s)] if blob is not None else []
    for i in range(lo, hi):
        op = plan["ops"][i]
        out.append({k: v for k, v in s.do(op).items() if k != "val"})
        for st in inside:
            if st["after"] == i and i < hi - 1 + (stop is None):
                b = pack(s, st["proto"])
                for j in range(i + 1, min(i + 1 + st["lost"], len(plan["ops"]))):
                    f = st["fault"]
                    s.do(plan["ops"][j], seams.Fault(f["kind"], 1 + int(f["frac"] * 60)) if f and f["kind"] != "alloc" else None)
                s = unpack(plan, b)
                seen.append(look(s))
    return out, pack(s, stop["proto"]) if stop else None, seen


def whole(plan):
    s = Session(plan)
    out = []
    for op in plan["ops"]:
        r = {k: v for k, v in s.do(op).items() if k != "val"}
        r["look"] = look(s)
        out.append(r)
    return out


def run(plan):
    st, viol = Stats(), []
    ops, n = plan["ops"], len(plan["ops"])
    base = isolate(whole, plan)
    st.outcomes(ops, base, plan)
    stops = [dict(s, after=min(s["after"], n - 1)) for s in plan["faults"]]
    cuts = sorted({s["after"]: s for s in stops if s["how"] != "same"}.values(), key=lambda s: s["after"])
    inside = [s for s in stops if s["how"] == "same" and s["after"] not in [c["after"] for c in cuts]]
    out, lo, blob, how = [], 0, None, "fresh"
    looks = []
    for cut in cuts + [None]:
        hi = n if cut is None else cut["after"] + 1
        if hi > lo or blob is not None:
            args = (plan, lo, hi, blob, cut, inside)
            try:
                r, blob2, seen = zygote.peer.call("vsim.props.p09", "segment", *args) if how == "peer" else isolate(segment, *args)
            except RuntimeError as e:
                if "PicklingError" in str(e) or "pickle" in str(e):
                    viol.append({"sig": "not-serialisable", "msg": "%s: cannot be serialised: %s" % (
                        plan["models"][0]["kind"], str(e).splitlines()[0])})
                    break
                raise
            looks += [(lo - 1 if blob is not None and k == 0 else None, x) for k, x in enumerate(seen)]
            out += r
            blob = blob2
        lo = hi
        how = cut["how"] if cut else None
        if cut:
            st.faults["restored in a %s" % {"peer": "fresh interpreter", "fresh": "fresh process"}[cut["how"]]] += 1
    st.faults["restored in the same process"] += len(inside)
    trace = [show(o) if "seed" in o else str(o) for o in ops] + ["stops: " + "; ".join("after call %d, %s" % (s["after"] + 1, s["how"]) for s in stops)]
    for at_op, x in looks:
        if viol or at_op is None:
            continue
        if x != base[at_op]["look"]:
            viol.append({"sig": "restored-differs", "msg": "%s: after %s the restored model has other topics or settings" % (
                plan["models"][ops[at_op]["m"]]["kind"], str(ops[at_op])[:80]), "trace": trace})
    for op, a, b in zip(ops, base, out):
        if viol:
            break
        if not same(a, b):
            viol.append({"sig": "carries-on-differently " + op["op"], "msg": "%s: %s gave %s after restoring, but %s without" % (
                plan["models"][op["m"]]["kind"], show(op) if "seed" in op else op, result_of(b), result_of(a)), "trace": trace})
    ok = any("ok" in r for r in base)
    return report(plan, viol, st, digest([r.get("ok") for r in base] + [str(stops)]) if ok and stops else None,
                  {"models": plan["models"], "data": plan["data"], "session": trace})


gen_only, gen_run, run = entry(gen, run)
