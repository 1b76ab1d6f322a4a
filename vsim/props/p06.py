"""P06: every reported distribution is a valid distribution, whatever the
random generators return.

After every operation of a session every document mixture and topic-word
distribution it reports, and those of the inference state it keeps, is checked.
In faulted operations planned draws of the generators give the least or the
greatest value of their range, at points found by counting an undisturbed
session's draws."""
from .base import *
from ..world import ssp, DataSet, wrapper

MODS = SEEDED_MODS + ("mod:lda_cvb0", "mod:lda_cvb", "mod:lda_vb", "mod:lda_vb_python", "mod:lda_gibbs",
                      "mod:mom_em", "mod:mom_gibbs")


def gen(rng, tier):
    mod = rng.random() < 0.2
    nm = 1 if mod or rng.random() < .7 else 2
    kinds = MODS if mod else ALL_KINDS + ("LDA_GIBBS", "LDA_CVB", "LDA_CVB0")
    T = rng.randint(6, 60)
    plan = {"models": [draw_model(rng, kinds, tier) for _ in range(nm)],
            "data": draw_data(rng, rng.randint(2, 3), tier, T=T)}
    for d in plan["data"]:
        if rng.random() < .3:
            d["one"] = True      # some documents of a single word
        if rng.random() < .2:
            d["gap"] = True      # some words no document has
        if rng.random() < (.5 if any(m["kind"] == "HDP" for m in plan["models"]) else .03):
            d["empty"] = True    # some documents of no words; only the HDP takes them
    for m in plan["models"]:
        if m["kind"] == "LDA_GIBBS" and rng.random() < .3:
            m["K"] = rng.choice([11, 20, 40, 100, 200, 255])
        elif m["kind"].startswith("LDA") and rng.random() < .15:
            m["K"] = rng.choice([11, 20, 40])
    fix_data_for(plan)
    nd = len(plan["data"])
    ops = []
    for j in range(nm):
        ops.append(op_base(rng, "fit", j, rng.randrange(nd), iters=rng.randint(1, 12), persist=not mod and rng.random() < .5))
    for _ in range(rng.randint(1, 6)):
        m = rng.randrange(nm)
        d = rng.randrange(nd)
        if rng.random() < .35:
            op = op_base(rng, "fit" if mod or rng.random() < .7 else "fit_transform", m, d, iters=rng.randint(1, 8))
            if op["op"] == "fit" and not mod:
                op["persist"] = rng.random() < .5
        else:
            op = op_base(rng, "transform", m, d, iters=rng.randint(1, 8))
            if not mod:
                op["persist"] = rng.random() < .5
        ops.append(op)
        if op.get("persist") and rng.random() < .35:
            ops.append(op_base(rng, rng.choice(["fit", "transform"]), m, d, iters=rng.randint(1, 4), resume=True, persist=rng.random() < .5))
    for op in ops:
        if rng.random() < .5:
            n = rng.choice([1, 1, 2, 4])
            op["extreme"] = [[round(rng.random(), 6), rng.random() < .5] for _ in range(n)]
    plan["ops"] = ops
    return plan


def make(spec):
    ds = make_data({k: v for k, v in spec.items() if k not in ("one", "gap", "empty")})
    if not (spec.get("one") or spec.get("gap") or spec.get("empty")):
        return ds
    W = ds.words.toarray()
    D, T = W.shape
    if spec.get("gap"):
        gone = np.arange(T) % 7 == 3
        W[:, gone] = 0
    if spec.get("one"):
        for d in range(0, D, 3):
            t = W[d].argmax() if W[d].any() else 0
            W[d] = 0
            W[d, t] = 1
    for d in range(D):
        if W[d].sum() == 0:
            W[d, d * 7 % T // 7 * 7] = 1
    if spec.get("empty") and D > 2:
        W[1::4] = 0
    return DataSet(ssp.csr_matrix(W), ds.feats, ds.links, debug=True)


def bad(what, x):
    x = np.asarray(x)
    if x.ndim != 2:
        return "%s has shape %s" % (what, x.shape)
    tol = 2e-3 if x.dtype == np.float32 else 1e-6
    x = x.astype(np.float64)
    if not np.isfinite(x).all():
        r, c = np.argwhere(~np.isfinite(x))[0]
        return "%s has %s at row %d column %d" % (what, x[r, c], r, c)
    if (x < -tol * 1e-3).any():
        r, c = np.argwhere(x < -tol * 1e-3)[0]
        return "%s has %.3g at row %d column %d" % (what, x[r, c], r, c)
    s = x.sum(axis=1)
    if (abs(s - 1) > tol).any():
        r = int(np.argmax(abs(s - 1)))
        return "row %d of %s sums to %.6g" % (r, what, s[r])
    return None


def check_op(s, op, r):
    m = s.models[op["m"]]
    K = m.spec["K"]
    v, out = r["val"], []
    if isinstance(m, Mod):
        pairs = [("document mixtures", v[0]), ("topics", v[1])] if op["op"] == "fit" else [("document mixtures", v)]
        q = s.qs.get((op["m"], op["d"]))
    else:
        pairs = [("topics", v)] if op["op"] == "fit" else [("document mixtures", v)] if op["op"] == "transform" else \
            [("document mixtures", v[0]), ("topics", v[1])] if op["op"] == "fit_transform" else []
        q = getattr(m.m, "query_state_", None) if op.get("persist") else None
        if q is not None:
            module = wrapper.TopicModelType[m.spec["kind"]].value
            pairs = pairs + [("kept document mixtures", np.array(module.topicDists(q)))]
    for what, x in pairs:
        want = (K, s.ds(op["d"]).words.shape[1]) if what == "topics" else (s.ds(op["d"]).doc_count, K)
        if np.asarray(x).shape != want:
            out.append("%s have shape %s, not %s" % (what, np.asarray(x).shape, want))
        b = bad(what, x)
        if b:
            out.append(b)
    z = getattr(q, "z_list", None)
    if z is not None:
        z = np.asarray(z)
        if z.size and int(z.max()) >= K:
            out.append("a word is assigned to topic %d of %d" % (int(z.max()), K))
    return out


def session(plan, ops, counts):
    """With counts None, no draw is touched, and the draws are counted."""
    s = Session(plan)
    for i, spec in enumerate(plan["data"]):
        s.data[i] = make(spec)
    out = []
    for i, op in enumerate(ops):
        x = None
        if counts is None:
            x = seams.ExtremeDraws()
        elif op.get("extreme") and "ok" in counts[i]:
            nc, nn = counts[i]["draws"]
            at = sorted({int(f * (nc + nn)): hi for f, hi in op["extreme"]}.items())
            spaced = [p for j, p in enumerate(at) if j == 0 or p[0] - at[j - 1][0] > 600]
            x = seams.ExtremeDraws([(p + 1, hi) for p, hi in spaced if p < nc], [(p - nc, hi) for p, hi in spaced if p >= nc])
        if x is None:
            r = s.do(op)
        else:
            seams.seed_all(op["seed"])
            s.model(op["m"])
            with x:
                r = s.do(op)
        e = {k: v for k, v in r.items() if k != "val"}
        if x is not None:
            e["draws"] = (int(x.c_calls), int(x.np_calls))
            e["fired"] = int(x.c_fired) + x.fired
        if "ok" in r:
            e["bad"] = check_op(s, op, r)
        out.append(e)
        if e.get("bad") or (counts is not None and "ok" not in r and "ok" in counts[i]):
            break
    return out


def judge(plan, out, st, viol, touched, clean=None):
    ops, n = plan["ops"], 0
    for i, r in enumerate(out):
        kind = plan["models"][ops[i]["m"]]["kind"]
        if touched and r.get("fired"):
            st.faults["extreme draw"] += r["fired"]
        if r.get("bad"):
            viol.append({"sig": "invalid " + kind, "msg": "%s: after %s%s %s" % (
                kind, show(ops[i]), " with extreme draws" if touched and any(q.get("fired") for q in out[:i + 1]) else "",
                "; ".join(r["bad"])), "trace": [show(o) + (" extreme %s" % o["extreme"] if touched and o.get("extreme") else "") for o in ops[:i + 1]]})
            return n
        if touched and "ok" in clean[i] and "ok" not in r:
            viol.append({"sig": "extreme-fails " + kind, "msg": "%s: %s fails with %s: %s when a generator returns an extreme value" % (
                kind, show(ops[i]), r["err"], r.get("msg", "")), "trace": [show(o) for o in ops[:i + 1]]})
            return n
        n += "ok" in r
    return n


def run(plan):
    st, viol = Stats(), []
    ops = plan["ops"]
    clean = isolate(session, plan, ops, None)
    st.outcomes(ops, clean, plan)
    n = judge(plan, clean, st, viol, False)
    out = []
    if not viol and any(o.get("extreme") and sum(c.get("draws", (0, 0))) for o, c in zip(ops, clean)):
        out = isolate(session, plan, ops, clean)
        n += judge(plan, out, st, viol, True, clean)
    st.count["valid reports"] += n
    st.sets["distribution outcomes"].update(r["ok"] for r in clean + out if "ok" in r)
    return report(plan, viol, st, digest([r.get("ok") for r in clean + out]) if n else None,
                  {"models": plan["models"], "data": plan["data"], "ops": [show(o) + (" extreme %s" % o["extreme"] if o.get("extreme") else "") for o in ops]})


gen_only, gen_run, run = entry(gen, run)
