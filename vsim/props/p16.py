"""P16: callers' data is never modified.

The simulated caller holds every object it ever passed in or was given -
datasets, raw matrices, priors, mixtures, topics, inference states - and
compares their meaning with what it was after every call, which may fail at a
planned point.  Objects are shared between models and datasets."""
import importlib

from .faulty import *
from .p12 import dense
from ..world import ssp, DataSet, wrapper, make_words

MODS = SEEDED_MODS + ("mod:lda_cvb0", "mod:lda_cvb", "mod:lda_vb", "mod:lda_vb_python", "mod:lda_gibbs", "mod:mom_em", "mod:mom_gibbs")
SPLITS = ("cross_valid_split", "doc_completion_split", "link_prediction_split", "folded_link_prediction_split",
          "split_on_feature", "words_with_min_freq", "copy", "deep_copy", "cross_valid_split_indices", "gensim_dictionary")
KERNELS = ("sparseScalarProductOfDot", "sparseScalarProductOfSafeLnDot", "sparseScalarQuotientOfDot",
           "sparseScalarQuotientOfNormedDot", "entropyOfDot", "mean_reciprocal_rank", "mean_average_prec", "mean_prec_rec_at")


def gen(rng, tier):
    mod = rng.random() < .25
    nm = 1 if mod or rng.random() < .5 else 2
    plan = {"models": [draw_model(rng, MODS if mod else ALL_KINDS, tier)], "data": draw_data(rng, rng.randint(1, 3), tier, T=rng.randint(6, 60))}
    for j in range(1, nm):   # shares the prior of the first
        m = draw_model(rng, ALL_KINDS, tier)
        a = plan["models"][0]
        if "alpha" in a and "alpha" in m and (m["kind"] == "LDA_VB") == (a["kind"] == "LDA_VB") and (m["kind"][:3] == a["kind"][:3]):
            m.update(K=a["K"], alpha=a["alpha"], share=True)
        plan["models"].append(m)
    for d in plan["data"]:
        if rng.random() < .5:
            d["feats"], d["links"], d["cats"] = 3, True, True
        if rng.random() < .3:
            d["feats_sparse"] = False
        d["form"] = rng.choice(["plain", "plain", "unsorted", "zeros", "shared", "coo"])
    fix_data_for(plan)
    if mod and plan["models"][0]["kind"] in ("mod:stm_yv", "mod:stm_yv_bohning", "mod:mtm3", "mod:lro_vb"):
        for d in plan["data"]:
            d["feats_sparse"] = True
    nd, kept, ops = len(plan["data"]), {}, []
    for j in range(nm):
        ops.append(op_base(rng, "fit", j, rng.randrange(nd), iters=rng.randint(1, 8), persist=not mod and rng.random() < .5))
        kept[j] = ops[-1]["d"] if ops[-1]["persist"] else None
    for _ in range(rng.randint(2, 8)):
        m, d, r = rng.randrange(nm), rng.randrange(nd), rng.random()
        if r < .2:
            op = op_base(rng, "fit", m, d, iters=rng.randint(1, 6), persist=not mod and rng.random() < .5)
        elif not mod and r < .35 and kept[m] is not None:
            op = op_base(rng, rng.choice(["fit", "transform"]), m, kept[m], iters=rng.randint(1, 5), resume=True, persist=rng.random() < .6)
        elif r < .65:
            op = draw_inference(rng, m, d, plan["models"][m])
            if op["op"] == "transform" and not mod:
                op["persist"] = rng.random() < .5
        elif r < .7:
            op = op_base(rng, "make_model", m, d)
        elif r < .76 and not mod and plan["models"][m]["kind"] != "HDP":
            op = op_base(rng, "weigh", m, d, how=rng.choice(["row", "rows", "kept"]))
        elif r < .8 and not mod:
            op = op_base(rng, "raw", m, d, iters=rng.randint(1, 4), how=rng.choice(["fit", "transform", "fit_transform", "score"]))
        elif r < .92:
            op = op_base(rng, "split", m, d, which=rng.choice(SPLITS), a=rng.randint(0, 3))
        else:
            op = op_base(rng, "kernel", m, d, which=rng.choice(KERNELS), dt=rng.choice(["f8", "f4"]))
        if rng.random() < .35:
            op["fault"] = draw_fault(rng)
        if op["op"] in ("fit", "transform", "raw"):
            kept[m] = op["d"] if op.get("persist") else None
        ops.append(op)
    plan["ops"] = ops
    return plan


def make(spec, pool):
    ds = make_data({k: v for k, v in spec.items() if k != "form"})
    W, form = ds.words, spec.get("form")
    rs = np.random.RandomState(spec["seed"] + 9)
    if form == "unsorted":
        W = W.copy()
        for d in range(W.shape[0]):
            a, b = W.indptr[d], W.indptr[d + 1]
            p = rs.permutation(b - a)
            W.indices[a:b], W.data[a:b] = W.indices[a:b][p].copy(), W.data[a:b][p].copy()
        W.has_sorted_indices = False
    elif form == "zeros":
        W = W.copy()
        for d in range(W.shape[0]):
            a, b = W.indptr[d], W.indptr[d + 1]
            if b - a > 1:
                W.data[a + rs.randint(b - a)] = 0
    elif form == "shared" and pool:
        W = pool[0].words if pool[0].words.shape == W.shape else W
    elif form == "coo":
        return DataSet(W.tocoo().tocsr(), ds.feats, ds.links, doc_categories=ds.doc_categories)
    return DataSet(W, ds.feats, ds.links, doc_categories=ds.doc_categories)


def meaning(x, depth=0):
    """What an object says, whatever its layout."""
    if isinstance(x, DataSet):
        return tuple((k, meaning(getattr(x, k), depth + 1)) for k in ("words", "feats", "links", "word_dict", "doc_categories", "order"))
    if ssp.issparse(x):
        return ("sparse", str(x.dtype), digest(np.asarray(x.toarray())))
    if isinstance(x, tuple) and hasattr(x, "_asdict"):
        return (type(x).__name__,) + tuple((k, meaning(v, depth + 1)) for k, v in x._asdict().items() if k != "expMeans")  # a work space
    if isinstance(x, (list, tuple)) and depth < 4 and len(x) < 50:
        return tuple(meaning(v, depth + 1) for v in x)
    if isinstance(x, np.ndarray) or x is None or isinstance(x, (int, float, str, bool, np.generic)):
        return digest(x)
    return digest(x)


def differs(a, b, name):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) and x[0] not in ("sparse",):
                    return differs(x[1], y[1], name + "." + x[0])
                return name if not isinstance(x, tuple) else differs(x, y, name)
    return name


class Caller(Session):
    def __init__(self, plan):
        super().__init__(plan)
        self.held = []        # (name, object, meaning)
        pool = []
        for i, spec in enumerate(plan["data"]):
            self.data[i] = make(spec, pool)
            pool.append(self.data[i])
            self.hold("dataset %d" % i, self.data[i])
            for p in ("words", "feats", "links"):
                if getattr(self.data[i], p) is not None:
                    self.hold("the %s matrix of dataset %d" % (p, i), getattr(self.data[i], p))
        for i, spec in enumerate(plan["models"]):
            m = self.model(i)
            if not isinstance(m, TM):
                continue
            if spec.get("share") and i and self.models[0].kw["doc_topic_prior"] is not None:
                m.kw["doc_topic_prior"] = self.models[0].kw["doc_topic_prior"]
                m.m = wrapper.TopicModel(**m.kw)
            self.hold("the topic prior of model %d" % i, m.kw["doc_topic_prior"])

    def hold(self, name, x):
        if x is None or any(o is x for _, o, _ in self.held):
            return
        self.held.append((name, x, meaning(x)))

    def changed(self):
        for name, x, was in self.held:
            now = meaning(x)
            if now != was:
                return differs(was, now, name)
        return None

    def op_fit(self, op):
        v = super().op_fit(op)
        m = self.models[op["m"]]
        if not isinstance(m, Mod):
            self.hold("the kept state after %s" % show(op), getattr(m.m, "query_state_", None))
            c = m.m.components_
            self.hold("the topics given by %s" % show(op), c)
        return v

    def op_transform(self, op):
        v = super().op_transform(op)
        m = self.models[op["m"]]
        if not isinstance(m, Mod):
            self.hold("the mixtures given by %s" % show(op), self.ys[(op["m"], op["d"])])
            self.hold("the kept state after %s" % show(op), getattr(m.m, "query_state_", None))
        return v

    def op_score(self, op):
        m, d = self.models[op["m"]], self.ds(op["d"])
        if isinstance(m, Mod):
            q = self.qs.get((op["m"], op["d"]))
            if q is None:
                return super().op_score(op)
            # the measures only read what they are given
            before = meaning(q), meaning(m.model)
            self.measure(m, d, q)
            after = meaning(q), meaning(m.model)
            if before != after:
                raise Changed(differs(before, after, "the inference state or model given to a measure"))
            return None
        v = super().op_score(op)
        y = self.ys.get((op["m"], op["d"]))
        if y is not None:
            self.hold("the mixtures scored by %s" % show(op), y)
        return v

    def measure(self, m, d, q):
        for name in ("log_likelihood", "log_likelihood_point", "var_bound"):
            fn = getattr(m.mdl, name, None)
            if fn is not None and not (m.spec["kind"] in ("mod:mom_em", "mod:mom_gibbs") or m.spec["kind"] == "mod:lro_vb"):
                with self.call:
                    fn(d, m.model, q)

    def op_make_model(self, op):
        spec, d = self.plan["models"][op["m"]], self.ds(op["d"])
        m = self.models[op["m"]]
        if isinstance(m, Mod):
            with self.call:
                new = Mod(spec, d)
                new.new_query(d)
            return None
        if isinstance(m, Hdp):
            with self.call:
                new = Hdp(spec, d)
                new.m.fit(d)
            return new.components()
        kw = m.kw
        with self.call:
            new = wrapper.TopicModel(**kw)
            new.fit(d, iterations=1)
            new.copy().fit(d, iterations=1)
        return np.array(new.components_)

    def op_raw(self, op):
        m, d = self.models[op["m"]], self.ds(op["d"])
        X = d.words
        self.hold("the raw matrix", X)
        with self.call:
            if op["how"] == "score":
                return float(m.m.score(X))
            y = getattr(m.m, op["how"])(X, iterations=op.get("iters"))
        return np.array(y) if op["how"] != "fit" else m.components()

    def op_weigh(self, op):
        """Documents are scored one by one, with the caller's weights."""
        m, d = self.models[op["m"]], self.ds(op["d"])
        K, rs = m.components().shape[0], np.random.RandomState(op["seed"])
        y = self.ys.get((op["m"], op["d"])) if op["how"] == "kept" else None
        if y is None:
            y = rs.dirichlet(np.ones(K), 1 if op["how"] == "row" and "MOM" in m.spec["kind"] else d.doc_count).astype(m.components().dtype)
        self.hold("the weights of %s" % show(op), y)
        with self.call:
            return np.array(m.m.log_likelihood_score_point(d, y))

    def op_split(self, op):
        d, name, a = self.ds(op["d"]), op["which"], op["a"]
        with self.call:
            if name in ("cross_valid_split", "cross_valid_split_indices"):
                out = getattr(d, name)(a % 3, 3)
            elif name == "doc_completion_split":
                out = d.doc_completion_split(seed=op["seed"], min_unique_word_count=a)
            elif name == "link_prediction_split":
                out = d.link_prediction_split(symmetric=a % 2 == 0, seed=op["seed"])
            elif name == "folded_link_prediction_split":
                out = d.folded_link_prediction_split(min_link_count=a, fold_id=a % 2, fold_count=2)
            elif name == "split_on_feature":
                out = d.split_on_feature([1])
            elif name == "words_with_min_freq":
                out = d.words_with_min_freq(a)
            elif name == "gensim_dictionary":
                out = None
                _ = d.gensim_dictionary
            else:
                out = d.copy(deep=name == "deep_copy")
        if name == "deep_copy":   # independent: may be changed at will
            for x in (out.words, out.feats, out.links):
                if x is not None:
                    x = x.data if ssp.issparse(x) else x
                    x[...] = 77
        return None

    def op_kernel(self, op):
        E = importlib.import_module("sidetopics.util.sparse_elementwise")
        d, dt = self.ds(op["d"]), np.float64 if op["dt"] == "f8" else np.float32
        rs = np.random.RandomState(op["seed"])
        A = d.words if d.words.dtype == dt else d.words.astype(dt)
        B, C = rs.rand(A.shape[0], 3).astype(dt) + .1, rs.rand(3, A.shape[1]).astype(dt) + .1
        n = C.sum(axis=0)
        args = {"sparseScalarQuotientOfNormedDot": (A, B, C, n), "entropyOfDot": (B, C)}.get(op["which"], (A, B, C))
        if op["which"].startswith("mean_"):
            E = importlib.import_module("sidetopics.model.evals")
            D = A.shape[0]
            args = (ssp.csr_matrix((rs.rand(D, D) < .3).astype(dt)), ssp.csr_matrix((rs.rand(D, D) * (rs.rand(D, D) < .8)).astype(dt)))
            if op["which"] == "mean_prec_rec_at":
                args += ([1, 2, 5], [(0, 3), (3, 5), (5, 1000)])
        was = [meaning(x) for x in args]
        with self.call:
            getattr(E, op["which"])(*args)
        for i, (x, w) in enumerate(zip(args, was)):
            if meaning(x) != w:
                raise Changed("argument %d of %s" % (i + 1, op["which"]))
        return None


class Changed(Exception):
    pass


def session(plan, ops, counts):
    s = Caller(plan)
    out, hits = [], []
    for i, op in enumerate(ops):
        f = None
        if op.get("fault"):
            if counts is None:
                f = seams.Fault(op["fault"]["kind"], 0)
            elif counts[i].get("count") and "ok" in counts[i]:
                f = seams.Fault(op["fault"]["kind"], at(op["fault"], counts[i]["count"]))
        r = s.do(op, f)
        e = {k: v for k, v in r.items() if k != "val"}
        if f is not None and counts is None:
            e["count"] = f.count
        if f is not None and f.fired:
            hits.append({"op": i, "kind": f.kind, "at": f.at, "n": f.n, "of": counts[i]["count"], "swallowed": "ok" in r})
        e["bad"] = r["msg"] if r.get("err") == "Changed" else s.changed()
        out.append(e)
        if e["bad"]:
            break
    return out, hits, len(s.held)


def run(plan):
    st, viol = Stats(), []
    ops = plan["ops"]
    clean, _, held = isolate(session, plan, ops, None)
    st.outcomes(ops, clean, plan)

    def judge(out, hits):
        for i, r in enumerate(out):
            if r.get("bad"):
                viol.append({"sig": "modified by " + ops[i].get("which", ops[i]["op"]), "msg": "%s%s%s changed %s" % (
                    plan["models"][ops[i]["m"]]["kind"] + ": " if ops[i]["op"] not in ("split", "kernel") else "",
                    show(ops[i]) + (" " + ops[i]["which"] if "which" in ops[i] else ""),
                    "".join(", failed by " + show_fault(h) + "," for h in hits if h["op"] == i), r["bad"]),
                    "trace": trace(ops[:i + 1], hits)})
                return
    judge(clean, [])
    hits = []
    if not viol and any(o.get("fault") and c.get("count") and "ok" in c for o, c in zip(ops, clean)):
        try:
            out, hits, held = isolate(session, plan, ops, clean)
            count_faults(st, hits)
            judge(out, hits)
        except Crashed:
            if all(o["fault"]["kind"] != "alloc" for o in ops if o.get("fault")):
                raise
            st.count["processes lost to a failed allocation"] += 1
    st.count["objects held"] += held
    n = sum("ok" in r for r in clean)
    return report(plan, viol, st, digest([[r.get("ok") for r in clean], [(h["op"], h["kind"], h["n"]) for h in hits]]) if n > 1 else None,
                  {"models": plan["models"], "data": plan["data"], "ops": trace(ops, hits)})


gen_only, gen_run, run = entry(gen, run)
