"""P13: splits lose, invent and leak nothing and are repeatable.

Split calls are made in an undisturbed session, and again in a disturbed one:
with other global random draws before them, other memory contents, other calls
in between, failures half way through, or interleaved with other callers."""
import contextlib
import io

from .p12 import DT, Ref, dense, draw_source, source, square, share, ssp
from .faulty import *
from ..world import DataSet
from sidetopics.run import __main__ as runner

KINDS = ("cv", "cv", "completion", "completion", "completion", "links", "links", "folded", "folded", "soft", "soft", "features")


def draw_call(rng):
    k = rng.choice(KINDS)
    op = {"op": k, "d": rng.randrange(3), "noise": draw_seed(rng), "poison": rng.choice(POISONS)}
    if k in ("cv", "folded"):
        op.update(folds=rng.randint(2, 6), min=rng.randint(0, 6))
    elif k == "completion":
        op.update(min=rng.choice([0, 0, 0, 1, 2, 3]), s=rng.choice([None, rng.randrange(10 ** 6)]),
                  prop=rng.choice([.05, .3, .5, .5, .8, 1.0]))
    elif k == "links":
        op.update(symm=rng.random() < .5, s=rng.choice([None, rng.randrange(10 ** 6)]))
    elif k == "soft":
        op.update(cols=rng.randrange(2 ** 20), prob=rng.choice([0, .3, .5, .9, 1.0]), s=rng.randrange(10 ** 6))
    elif k == "features":
        op.update(f=[rng.randrange(4) for _ in range(rng.randint(1, 3))])
    return op


def gen(rng, tier):
    srcs = []
    for _ in range(rng.randint(1, 3)):
        s = draw_source(rng)
        s.update(D=rng.randint(2, 40), T=rng.randint(3, 30), files=False, symm=rng.random() < .5)
        srcs.append(s)
    ops = []
    for _ in range(rng.randint(1, 5)):
        op = draw_call(rng)
        if rng.random() < .4:
            op["fault"] = draw_fault(rng)
        op["again"] = rng.choice([0, 0, 1, 2])
        ops.append(op)
    plan = {"sources": srcs, "ops": ops, "models": [], "data": []}
    if rng.random() < .25:
        plan["callers"] = [{"ops": [draw_call(rng) for _ in range(rng.randint(1, 3))]} for _ in range(rng.randint(2, 3))]
        plan["switches"] = sorted([rng.randint(1, 600), rng.randrange(3)] for _ in range(rng.randint(2, 25)))
    return plan


def make(spec):
    ds, ref = source(spec)
    if spec.get("symm") and square(ref):
        L = ssp.csr_matrix(ds.links + ds.links.T)
        ds = DataSet(ds.words, ds.feats, L, ds.word_dict, ds.doc_categories, order=ds.order, debug=True)
        ref.L = dense(L)
    return ds, ref


def columns(op, T):
    return [t for t in range(T) if op["cols"] >> (t % 20) & 1]


def call(ds, op):
    """All the splits of one kind: a list of results."""
    k = op["op"]
    if k == "cv":
        return [list(ds.cross_valid_split(f, op["folds"], debug=True)) + list(ds.cross_valid_split_indices(f, op["folds"]))
                for f in range(op["folds"])]
    if k == "completion":
        kw = {} if op["s"] is None else {"seed": op["s"]}
        return [list(ds.doc_completion_split(op["min"], est_prop=op["prop"], debug=True, **kw))]
    if k == "links":
        kw = {} if op["s"] is None else {"seed": op["s"]}
        return [list(ds.link_prediction_split(op["symm"], **kw))]
    if k == "folded":
        return [list(ds.folded_link_prediction_split(op["min"], f, op["folds"])) for f in range(op["folds"])]
    if k == "soft":
        return [list(runner.soft_split_on_indices(ds.words, columns(op, ds.words.shape[1]),
                                                  np.random.RandomState(op["s"]), op["prob"]))]
    return [list(ds.split_on_feature(op["f"]))]


def conserved(op, ref, out):
    """None, or what was lost, invented or leaked."""
    k, D = op["op"], len(ref.W)
    every = [int(o) for o in ref.order]
    if k == "cv":
        held = set()
        for f, (train, query, ti, qi) in enumerate(out):
            ti, qi = [int(i) for i in ti], [int(i) for i in qi]
            if set(ti) & set(qi):
                return "fold %d trains on held-out documents %s" % (f, sorted(set(ti) & set(qi)))
            if sorted(ti + qi) != list(range(D)):
                return "fold %d holds documents %s of %d" % (f, sorted(ti + qi), D)
            held |= set(qi)
            for name, d, idx in (("train", train, ti), ("held-out", query, qi)):
                if not np.array_equal(dense(d.words), ref.W[idx]) or [int(o) for o in d.order] != [every[i] for i in idx]:
                    return "the %s part of fold %d does not hold its documents" % (name, f)
                if ref.X is not None and not np.array_equal(dense(d.feats), ref.X[idx]):
                    return "the %s part of fold %d does not hold its features" % (name, f)
        if held != set(range(D)):
            return "documents %s are held out in no fold" % sorted(set(range(D)) - held)
    elif k == "completion":
        a, b = out[0]
        if ref.X is not None:
            return None if dense(a.words).shape == ref.W.shape and np.array_equal(dense(a.words), ref.W) and \
                np.array_equal(dense(b.words), ref.W) else "with features both halves should be the documents"
        where = {o: i for i, o in enumerate(every)}
        keep = [where[int(o)] for o in a.order] if op["min"] > 0 else list(range(D))
        wa, wb = dense(a.words).astype(float), dense(b.words).astype(float)
        if wa.shape != wb.shape or len(wa) != len(keep) or list(a.order) != list(b.order):
            return "the halves hold different documents"
        if wa.min(initial=0) < 0 or wb.min(initial=0) < 0:
            return "a half holds negative counts"
        if not np.array_equal(wa + wb, ref.W[keep]):
            return "the halves do not add up to the documents"
        if (np.abs(wa - ref.W[keep] * op["prop"]) > 6).any():
            return "a half does not hold its share of the words"
        if op["min"] > 0 and len(set(every)) == D and len(keep) < D:
            if ((wa != 0).sum(axis=1) < op["min"]).any() or ((wb != 0).sum(axis=1) < op["min"]).any():
                return "a document with too few words was kept"
    elif k == "links":
        a, b = dense(out[0][0].links), dense(out[0][1].links)
        if not np.array_equal(a + b, ref.L):
            return "the parts do not add up to the links"
        if ((a != 0) & (b != 0)).any():
            return "a link is in both parts"
        if op["symm"] and not (np.array_equal(a, a.T) and np.array_equal(b, b.T)):
            return "a part of a symmetric split is not symmetric"
    elif k == "folded":
        n = (ref.L != 0).sum(axis=1)
        held = np.zeros_like(ref.L)
        for f, (train, query, docs) in enumerate(out):
            a, b = dense(train.links), dense(query.links)
            big = n >= op["min"]
            if [int(d) for d in docs] != list(np.where(big)[0]):
                return "fold %d says links were removed of documents %s, but those with enough links are %s" % (
                    f, list(docs), list(np.where(big)[0]))
            if not np.array_equal(a[~big], ref.L[~big]) or not np.array_equal(b[~big], ref.L[~big]):
                return "fold %d removed links of a document with too few" % f
            if not np.array_equal((a + b)[big], ref.L[big]):
                return "the parts of fold %d do not add up to the links" % f
            if ((a != 0) & (b != 0))[big].any():
                return "a link is in both parts of fold %d" % f
            if ((held != 0) & (b != 0))[big].any():
                return "a link is held out in two folds"
            held[big] += b[big]
    elif k == "soft":
        a, b = dense(out[0][0]), dense(out[0][1])
        cols = columns(op, ref.W.shape[1])
        if not np.array_equal(a + b, ref.W):
            return "the parts do not add up to the words"
        if ((a != 0) & (b != 0)).any():
            return "a word is in both parts"
        rest = np.setdiff1d(np.arange(ref.W.shape[1]), cols)
        if b[:, rest].any():
            return "a word which was not to be moved was moved"
        if op["prob"] >= 1 and a[:, cols].any() or op["prob"] == 0 and b.any():
            return "with probability %s the wrong words were moved" % op["prob"]
    else:
        train, query, idx = out[0]
        m = np.abs(ref.X[:, op["f"]].sum(axis=1))
        tr, qu = np.where(m == 0)[0], np.where(ref.X[:, op["f"][0]] > 0)[0]
        for name, d, want in (("training", train, tr), ("query", query, qu)):
            if [int(o) for o in d.order] != [every[i] for i in want] or not np.array_equal(dense(d.words), ref.W[want]):
                return "the %s part holds other documents than those with%s the features" % (name, "out" if name == "training" else "")
    return None


def possible(op, ref):
    k = op["op"]
    if k in ("links", "folded") and ref.L is None:
        return False
    if k == "links" and op["symm"] and not (square(ref) and np.array_equal(ref.L, ref.L.T)):
        return False
    if k == "features" and (ref.X is None or (ref.L is not None and not square(ref))):
        return False
    if k == "completion" and op["min"] > 0 and len(set(map(int, ref.order))) < len(ref.order):
        return False
    return True


def dress(plan, ref_only=False):
    made = [make(s) for s in plan["sources"]]
    return made


def outcome(ds, op):
    try:
        out = call(ds, op)
        return out, {"ok": digest(out)}
    except KeyboardInterrupt:
        return None, {"err": "SimInterrupt"}
    except Exception as e:
        return None, {"err": type(e).__name__, "msg": str(e)[:100]}


def plain(plan, ops):
    """Every call alone, in a fresh session, and the opportunities to fail."""
    made = dress(plan)
    res = []
    sink = io.StringIO()
    with contextlib.redirect_stdout(sink):
        for op in ops:
            ds, ref = made[op["d"] % len(made)]
            if not possible(op, ref):
                res.append(None)
                continue
            seams.seed_all(1)
            f = seams.Fault(op["fault"]["kind"], 0) if op.get("fault") else None
            with f or contextlib.nullcontext():
                out, r = outcome(ds, op)
            if f:
                r["count"] = f.count
            if out is not None:
                r["lost"] = conserved(op, ref, out)
            res.append(r)
    return res


def state():
    s = np.random.get_state()
    return digest([s[1], s[2], s[3], s[4]])


def disturbed(plan, base):
    made = dress(plan)
    trace, hits, wrong = [], [], None
    sink = io.StringIO()
    with contextlib.redirect_stdout(sink):
        for op, b in zip(plan["ops"], base):
            if b is None:
                continue
            ds, ref = made[op["d"] % len(made)]
            for k in range(1 + op["again"]):
                seams.seed_all(op["noise"] + k)
                seams.simalloc.set_pattern(op["poison"], op["noise"])
                np.random.rand(op["noise"] % 50)
                before, mine = state(), digest([d for d, _ in made])
                c0 = seams.shim.sim_calls()
                f = None
                if k == 0 and op.get("fault") and b.get("count") and "ok" in b:
                    f = seams.Fault(op["fault"]["kind"], at(op["fault"], b["count"]))
                with f or contextlib.nullcontext():
                    out, r = outcome(ds, op)
                what = "%s%s" % (op["op"], {x: y for x, y in op.items() if x in ("folds", "min", "s", "prop", "symm", "prob", "f", "d")})
                if f is not None and f.fired:
                    hits.append({"kind": f.kind, "at": f.at, "op": op["op"]})
                    trace.append("%s   <- fails: %s at %s" % (what, f.kind, f.at))
                else:
                    trace.append(what)
                if state() != before or seams.shim.sim_calls() != c0:
                    return trace, hits, ("stream-disturbed", "%s changed the global random stream" % what)
                if digest([d for d, _ in made]) != mine:
                    return trace, hits, ("dataset-changed", "%s changed a dataset" % what)
                if f is not None and f.fired:
                    continue
                if not same(r, b):
                    return trace, hits, ("not-repeatable", "%s gave %s the first time and %s later" % (what, result_of(b), result_of(r)))
                if out is not None:
                    lost = conserved(op, ref, out)
                    if lost:
                        return trace, hits, ("lost " + op["op"], "%s: %s" % (what, lost))
    return trace, hits, wrong


def together(plan, base):
    made = dress(plan)
    results = [[] for _ in plan["callers"]]

    def body(i):
        def go():
            for op in plan["callers"][i]["ops"]:
                ds, ref = made[op["d"] % len(made)]
                results[i].append(outcome(ds, op)[1] if possible(op, ref) else None)
        return go
    sink = io.StringIO()
    with contextlib.redirect_stdout(sink):
        sch = seams.Scheduler([body(i) for i in range(len(plan["callers"]))], plan["switches"], 5)
        sch.run()
    for i, (rs, bs) in enumerate(zip(results, base)):
        for op, r, b in zip(plan["callers"][i]["ops"], rs, bs):
            if b is not None and not same(r, b):
                return sch.switched, "caller %d: %s gave %s alone but %s among others" % (i, op["op"], result_of(b), result_of(r)), sch.trace
    return sch.switched, None, []


def run(plan):
    st, viol = Stats(), []
    base = isolate(plain, plan, plan["ops"])

    def bad(sig, msg, trace=()):
        viol.append({"sig": sig, "msg": msg, "trace": list(trace)})
    for op, b in zip(plan["ops"], base):
        if b is None:
            continue
        st.count["splits"] += 1
        st.count["op " + op["op"]] += 1
        if "err" in b:
            st.count["splits refused"] += 1
            st.sets["errors seen"].add("%s %s: %s" % (op["op"], b["err"], b.get("msg", "")[:60]))
            if not viol and (op["op"] in ("cv", "links", "folded", "soft") or op["op"] == "completion" and op["min"] == 0):
                bad("refused " + op["op"], "%s: refused with %s: %s" % ({k: v for k, v in op.items() if k != "fault"}, b["err"], b.get("msg")))
        elif b["lost"] and not viol:
            bad("lost " + op["op"], "%s: %s" % ({k: v for k, v in op.items() if k != "fault"}, b["lost"]))
    hits, switched = [], 0
    if not viol:
        trace, hits, wrong = isolate(disturbed, plan, base)
        for h in hits:
            st.faults[h["kind"]] += 1
            st.sets["fault points"].add("%s %s" % (h["op"], h["at"]))
        st.faults["other global draws"] += sum(b is not None for b in base)
        if wrong:
            bad(wrong[0], wrong[1], trace)
    if not viol and plan.get("callers"):
        alone = [isolate(plain, plan, c["ops"]) for c in plan["callers"]]
        switched, wrong, where = isolate(together, plan, alone)
        st.count["caller switches"] += switched
        if switched:
            st.faults["interleaved callers"] += 1
        if wrong:
            bad("interleaving", wrong, where)
    ok = [b["ok"] for b in base if b and "ok" in b]
    return report(plan, viol, st, digest([ok, hits, switched]) if ok else None,
                  {"sources": plan["sources"], "calls": [str(o) for o in plan["ops"]]})


gen_only, gen_run, run = entry(gen, run)
