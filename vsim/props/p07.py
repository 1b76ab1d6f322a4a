"""P07: scores describe the current model and the given documents.

At random points of random histories (fits, refits, inferences, copies,
restores, failed calls) scores are compared with the definition evaluated in
double precision from the topics the model reports at that moment and the
mixtures given, kept or inferred."""
import copy
import pickle

from .faulty import *
from ..world import DataSet, wrapper

MODS = ("mod:ctm", "mod:ctm_bohning", "mod:ctm_grad_arb", "mod:stm_yv", "mod:stm_yv_bohning", "mod:mtm3", "mod:lda_cvb0", "mod:lda_cvb",
        "mod:lda_vb", "mod:lda_vb_python", "mod:lda_gibbs", "mod:mom_em")
GIVEN = ("y", "rand", "corpus", "corpus1")
HOWS = ("none", "none", "y", "rand", "qs")


def draw_score(rng, m, d, spec):
    if spec["kind"].startswith("mod:"):
        return op_base(rng, "score", m, d)
    how = rng.choice(HOWS)
    if spec["kind"] == "LDA_GIBBS" and how in ("y", "rand"):
        how = "qs"
    if spec["kind"].startswith("MOM") and rng.random() < .2:
        how = rng.choice(["corpus", "corpus1"])     # one weighting for all documents
    op = op_base(rng, "score", m, d, method=rng.choice(POINT_METHODS), **{"with": how})
    if how in ("none", "rand") and rng.random() < .15:
        op["raw"] = True
    return op


def gen(rng, tier):
    mod = rng.random() < .2
    nm = 1 if mod or rng.random() < .75 else 2
    T = rng.randint(6, 60)
    plan = {"models": [draw_model(rng, MODS if mod else ALL_KINDS, tier) for _ in range(nm)],
            "data": draw_data(rng, rng.randint(2, 3), tier, T=T)}
    if not mod:
        for d in plan["data"]:
            d["rate"] = max(d["rate"], 0.3)     # document completion needs two words
    fix_data_for(plan)
    nd = len(plan["data"])
    ops = [op_base(rng, "fit", j, rng.randrange(nd), iters=rng.randint(1, 8), persist=not mod and rng.random() < .5) for j in range(nm)]
    for j in range(nm):
        ops.append(draw_score(rng, j, rng.randrange(nd), plan["models"][j]))
    for _ in range(rng.randint(2, 8)):
        m, d, r = rng.randrange(nm), rng.randrange(nd), rng.random()
        if r < .25:
            op = op_base(rng, "fit", m, d, iters=rng.randint(1, 6), persist=not mod and rng.random() < .5)
        elif r < .5:
            op = op_base(rng, "transform", m, d, iters=rng.randint(1, 6), persist=not mod and rng.random() < .6)
        elif r < .56 and not mod:
            op = {"op": "prune", "m": m, "d": d, "frac": round(rng.random() * .7, 3), "seed": draw_seed(rng)}
        elif r < .59 and not mod:
            op = {"op": "convert", "m": m, "d": d, "dtype": rng.choice(["f8", "f4", "i4"])}
        elif r < .64 and not mod:
            op = {"op": "restore", "m": m}
        elif r < .69 and not mod and nm == 2:
            op = op_base(rng, "copy", 0, 0, m2=1)
            plan["models"][1] = dict(plan["models"][0])
        else:
            op = draw_score(rng, m, d, plan["models"][m])
        if op["op"] in ("fit", "transform", "score") and rng.random() < .12:
            op["fault"] = draw_fault(rng)
        around = [draw_score(rng, m, d, plan["models"][m]) for _ in range(2)] if op["op"] == "prune" and rng.random() < .7 else []
        ops += around[:1] + [op] + around[1:]
    ops.append(draw_score(rng, 0, rng.randrange(nd), plan["models"][0]))
    for op in ops:          # copying may have changed a model's kind
        kind = plan["models"][op["m"]]["kind"]
        if op.get("with", "").startswith("corpus") and not kind.startswith("MOM"):
            op["with"] = "none"
        if op.get("with") in GIVEN and kind == "LDA_GIBBS":
            op["with"] = "qs"
    plan["ops"] = ops
    return plan


def lse(words, y, comps, floor_y, floor_c):
    lw = np.log(np.where(y >= floor_y, y, floor_y))
    lc = np.log(np.where(comps >= floor_c, comps, floor_c))
    x = words @ lc.T + lw
    mx = x.max(axis=1)
    return float((np.log(np.exp(x - mx[:, None]).sum(axis=1)) + mx).sum())


def admix(words, y, comps, floor):
    p = y @ comps
    return float((words * np.log(np.maximum(p, floor))).sum())


def floor_of(dtype):
    return float(np.finfo(np.float32 if dtype == np.float32 else np.float64).tiny)


def reference(kind, words, y, comps):
    dt = np.asarray(comps).dtype
    W = words.toarray().astype(np.float64)
    y64, c64 = np.asarray(y, dtype=np.float64), np.asarray(comps, dtype=np.float64)
    if kind.startswith("MOM") or "mom_" in kind:
        return lse(W, y64, c64, 1e-35 if np.asarray(y).dtype == np.float32 else 1e-300, 1e-35 if dt == np.float32 else 1e-300)
    return admix(W, y64, c64, floor_of(dt))


def mod_reference(m, ds, q):
    k = m.spec["kind"][4:]
    if k in ("lda_cvb", "lda_cvb0"):
        a = np.broadcast_to(np.asarray(m.model.topicPrior, dtype=float), (m.spec["K"],))
        n_dk, n_kt = np.asarray(q.n_dk, float) + a, np.asarray(m.model.n_kt, float) + float(m.model.vocabPrior)
        return reference(k, ds.words, n_dk / n_dk.sum(axis=1)[:, None], (n_kt / n_kt.sum(axis=1)[:, None]).astype(m.model.n_kt.dtype))
    y, c = m.topic_dists(q), np.array(m.word_dists())
    v = reference(k, ds.words, y, c)
    if k == "mtm3":
        x = np.asarray(q.inMeans, float)
        x = np.exp(x - x.max(axis=0))
        v += admix(ds.links.toarray().astype(float), y, (x / x.sum(axis=0)).T, floor_of(np.dtype(float)))
    return v


def seeded(op):
    seams.seed_all(op["seed"])
    seams.simalloc.set_pattern(op.get("poison", 6), op["seed"])


def expected(s, op):
    """Called just before the score: (its definition's value, words)."""
    m, ds = s.models[op["m"]], s.ds(op["d"])
    if isinstance(m, Mod):
        q = s.qs.get((op["m"], op["d"]))
        if q is None:
            seeded(op)
            mm = copy.deepcopy(m.model)
            _, q = m.mdl.query(ds, mm, m.new_query(ds), m.plan(2))
        return mod_reference(m, ds, q), float(ds.words.sum())
    how = op.get("with", "none")
    y = None
    if how in GIVEN:
        y = s.ys.get((op["m"], op["d"]))
        if y is None:
            y = np.full((ds.doc_count, m.spec["K"]), 1.0 / m.spec["K"])
    elif how == "qs" and s.qs.get((op["m"], op["d"])) is not None:
        y = wrapper.TopicModelType[m.spec["kind"]].value.topicDists(s.qs[(op["m"], op["d"])])
    words = ds.words
    if y is None:
        target = ds
        if "doc_completion" in op["method"]:
            target, held = ds.doc_completion_split()
            words = held.words
        mm = copy.deepcopy(m.m)
        seeded(op)
        y = mm.transform(DataSet(target.words, target.feats, target.links))
    return reference(m.spec["kind"], words, np.array(y), m.components()), float(words.sum())


def session(plan, ops, clean):
    s = Session(plan)
    out = []
    for i, op in enumerate(ops):
        if op["op"] == "restore":
            s.model(op["m"])
            s.models[op["m"]].m = pickle.loads(pickle.dumps(s.models[op["m"]].m))
            out.append({"ok": "restored"})
            continue
        f = None
        if op.get("fault"):
            if clean is None:
                f = seams.Fault(op["fault"]["kind"], 0)
            elif "ok" in clean[i] and clean[i].get("count"):
                f = seams.Fault(op["fault"]["kind"], at(op["fault"], clean[i]["count"]))
        want = None
        s.model(op["m"])
        if op.get("with") == "rand" and s.models[op["m"]].trained():
            m, rs = s.models[op["m"]], np.random.RandomState(op["seed"])
            y = rs.dirichlet(np.full(m.spec["K"], .5), s.ds(op["d"]).doc_count).astype(m.components().dtype)
            y[0] = 0
            y[0, rs.randint(m.spec["K"])] = 1
            s.ys[(op["m"], op["d"])] = y
        keep_y = s.ys.get((op["m"], op.get("d")))
        if op.get("with", "").startswith("corpus") and s.models[op["m"]].trained():
            y = np.random.RandomState(op["seed"]).dirichlet(np.full(s.models[op["m"]].spec["K"], .5))
            s.ys[(op["m"], op["d"])] = y if op["with"] == "corpus" else y[np.newaxis, :]
        if op["op"] == "score" and clean is not None:
            try:
                want = expected(s, op)
            except Exception as e:
                want = e
        if op.get("raw"):
            keep = s.ds(op["d"])
            s.data[op["d"]] = keep.words
        r = s.do(dict(op, **{"with": "y"}) if op.get("with") in GIVEN else op, f)
        if op.get("with", "").startswith("corpus"):
            s.ys.pop((op["m"], op["d"]), None)
            if keep_y is not None:
                s.ys[(op["m"], op["d"])] = keep_y
        if op.get("raw"):
            s.data[op["d"]] = keep
        e = {k: v for k, v in r.items() if k != "val"}
        if f is not None:
            e["count"], e["fired"], e["n"], e["at"] = f.count, f.fired, f.n, f.at
        if op["op"] == "score":
            if "ok" in r:
                e["value"] = float(r["val"])
            if isinstance(want, Exception):
                e["want_err"] = "%s: %s" % (type(want).__name__, want)
            elif want is not None:
                e["want"], e["words"] = want
        out.append(e)
    return out


def run(plan):
    st, viol = Stats(), []
    ops = plan["ops"]
    clean = isolate(session, plan, ops, None)
    st.outcomes(ops, clean, plan)
    try:
        out = isolate(session, plan, ops, clean)
    except Crashed:
        if not any(o.get("fault", {}).get("kind") == "alloc" for o in ops):
            raise
        st.count["processes lost to a failed allocation"] += 1
        return report(plan, [], st)
    n = 0
    hits = []
    for i, (op, r) in enumerate(zip(ops, out)):
        if r.get("fired"):
            st.faults[op["fault"]["kind"]] += 1
            hits.append({"op": i, "kind": op["fault"]["kind"], "at": r["at"], "n": r["n"], "of": clean[i]["count"]})
            if "ok" in r:
                break       # absorbed: its value is not known to be right
        if "want_err" in r:
            st.sets["definitions not evaluated, seen"].add(plan["models"][op["m"]]["kind"] + " " + r["want_err"][:90])
        if op["op"] != "score" or "want" not in r or r.get("fired"):
            continue
        spec = plan["models"][op["m"]]
        kind, ll, words = spec["kind"], r["want"], r["words"]
        if "value" not in r:
            viol.append({"sig": "no score " + kind, "msg": "%s: %s gave %s, but the definition gives %.8g over %d words" % (
                kind, show(op), result_of(r), ll, words), "trace": [show(o) if "seed" in o else str(o) for o in ops[:i + 1]]})
            break
        got = r["value"]
        if "perplexity" in op.get("method", ""):
            got_ll = -np.log(got) * words if got > 0 else float("nan")
        else:
            got_ll = got
        if not np.isfinite(ll):
            st.count["scores with no finite definition"] += 1
            continue
        st.count["scores compared"] += 1
        st.count["scored " + kind] += 1
        n += 1
        if not np.isfinite(got_ll) or abs(got_ll - ll) > 2e-4 * abs(ll) + 1e-3:
            viol.append({"sig": "score " + kind, "msg": "%s: %s gave %.8g (log-likelihood %.8g), but the definition gives %.8g over %d words" % (
                kind, show(op), got, got_ll, ll, words), "trace": [show(o) if "seed" in o else str(o) for o in ops[:i + 1]]})
            break
    return report(plan, viol, st, digest([r.get("ok") for r in out]) if n else None,
                  {"models": plan["models"], "data": plan["data"], "ops": [show(o) if "seed" in o else str(o) for o in ops],
                   "faults": [show_fault(h) for h in hits]})


gen_only, gen_run, run = entry(gen, run)
