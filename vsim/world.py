"""The simulated world: datasets, models and callers, all described by plans
(plain JSON), and the interpreter which carries out their operations against
the repository's real code."""
import contextlib
import copy
import gc
import hashlib
import logging
import warnings

import numpy as np
import scipy.sparse as ssp

warnings.simplefilter("ignore")
np.seterr(all="ignore")

from . import seams  # noqa: E402
import sidetopics.model.sklearn.lda_cvb as wrapper  # noqa: E402
from sidetopics.model.common import DataSet  # noqa: E402

logging.disable(logging.CRITICAL)

DTYPES = {"f8": np.float64, "f4": np.float32, "i4": np.int32}


# ------------------------------------------------------------------ digests
def digest(x):
    """A hash of the exact value of x, to compare results bit by bit."""
    h = hashlib.sha256()
    _feed(h, x, 0)
    return h.hexdigest()[:20]


def _feed(h, x, depth):
    if depth > 12:
        return
    if x is None or isinstance(x, (bool, str, bytes)):
        h.update(repr(x).encode())
    elif isinstance(x, (int, np.integer)):
        h.update(b"i%d" % int(x))
    elif isinstance(x, (float, np.floating)):
        h.update(b"f" + np.float64(x).tobytes())
    elif isinstance(x, np.ndarray):
        if x.dtype == object:
            for e in x.ravel():
                _feed(h, e, depth + 1)
        else:
            h.update(str((x.shape, x.dtype.str)).encode())
            h.update(np.ascontiguousarray(x).tobytes())
    elif ssp.issparse(x):
        c = x.tocsr()
        h.update(str((x.shape, x.dtype.str)).encode())
        for a in (c.data, c.indices, c.indptr):
            _feed(h, np.asarray(a), depth + 1)
    elif isinstance(x, DataSet):
        for a in (x.words, x.feats, x.links, x.word_dict, x.doc_categories, x.order):
            _feed(h, a, depth + 1)
    elif isinstance(x, dict):
        for k in sorted(x, key=repr):
            h.update(repr(k).encode())
            _feed(h, x[k], depth + 1)
    elif isinstance(x, (list, tuple)):
        h.update(b"[%d" % len(x))
        for e in x:
            _feed(h, e, depth + 1)
    elif isinstance(x, type) or callable(x):
        h.update(getattr(x, "__name__", "fn").encode())
    elif hasattr(x, "__dict__"):
        h.update(type(x).__name__.encode())
        _feed(h, vars(x), depth + 1)
    else:
        h.update(repr(x).encode())


# ------------------------------------------------------------------ datasets
def make_words(spec):
    """Word counts of a planned dataset; every document has at least a word."""
    rs = np.random.RandomState(spec["seed"])
    D, T = spec["D"], spec["T"]
    W = rs.poisson(spec.get("rate", 0.5), (D, T))
    # some structure, so that inference moves
    g = rs.randint(0, 3, D)
    block = max(1, T // 3)
    for d in range(D):
        lo = g[d] * block % T
        W[d, lo:lo + block] += rs.poisson(spec.get("rate", 0.5) * 2, W[d, lo:lo + block].shape)
        if W[d].sum() == 0:
            W[d, rs.randint(T)] = 1
    for d, n in spec.get("long", []):  # documents much longer than the others
        W[d % D, rs.randint(T)] += n
    return ssp.csr_matrix(W.astype(DTYPES[spec.get("dtype", "f8")]))


def make_data(spec):
    W = make_words(spec)
    rs = np.random.RandomState(spec["seed"] + 1)
    D = W.shape[0]
    X = L = None
    if spec.get("feats"):
        F = spec["feats"]
        X = rs.randint(0, 2, (D, F)).astype(np.float64)
        X[:, 0] = 1
        if spec.get("feats_sparse", True):
            X = ssp.csr_matrix(X)
    if spec.get("links"):
        A = (rs.rand(D, D) < 0.15).astype(np.float64)
        np.fill_diagonal(A, 0)
        for d in range(D):
            A[d, (d + 1) % D] = 1
        L = ssp.csr_matrix(A)
    cats = [["c%d" % (d % 3)] for d in range(D)] if spec.get("cats") else None
    return DataSet(W, X, L, doc_categories=cats, debug=True)


# -------------------------------------------------------------------- models
# "HDP" is the wrapped gensim model
TM_KINDS = ("LDA_CVB0", "LDA_CVB", "LDA_VB", "LDA_VB_PYTHON_IMPL", "LDA_GIBBS", "MOM_VB", "MOM_GIBBS")
MOD_KINDS = ("ctm", "ctm_bohning", "ctm_grad_arb", "stm_yv", "stm_yv_bohning", "mtm3", "lro_vb",
             "lda_cvb0", "lda_cvb", "lda_vb", "lda_vb_python", "lda_gibbs", "mom_em", "mom_gibbs")


def tm_settings(spec):
    K, kind = spec["K"], spec["kind"]
    dt = np.float32 if kind == "LDA_VB" else np.float64
    alpha = spec.get("alpha")
    kw = dict(kind=kind, n_components=K, iterations=spec["iters"], query_iterations=spec.get("qiters"),
              doc_topic_prior=None if alpha is None else np.full(K, alpha, dtype=dt),
              topic_word_prior=spec.get("beta"), log_frequency=spec.get("logf", 0),
              seed=spec.get("seed", 1))
    if spec.get("batch"):
        kw.update(batchSize=spec["batch"], rate_algor=wrapper.TrainingStyleTypes.BLEI_TIME_KAPPA,
                  rate_delay=spec.get("rate_delay", 0.6), forgetting_rate=spec.get("forget", 0.6))
    if spec.get("burn") is not None:
        kw.update(burn_in=spec["burn"], thin=spec["thin"])
    return kw


def settings(op):
    """What an operation passes to a TopicModel's fit or transform."""
    kw = {}
    if op.get("iters"):
        kw["iterations"] = op["iters"]
    if op.get("burn"):
        kw.update(burn_in=op["burn"], thin=op["thin"])
    return kw


class TM:
    """A TopicModel behind the operations the simulator performs."""

    def __init__(self, spec):
        self.spec = spec
        self.kw = tm_settings(spec)
        self.m = wrapper.TopicModel(**self.kw)

    def components(self):
        return np.array(self.m.components_)

    def trained(self):
        return self.m._model_state is not None


class Hdp:
    """The wrapped hierarchical Dirichlet process, behind the same operations."""

    def __init__(self, spec, data):
        self.spec = spec
        self.m = wrapper.WrappedScikitHdp(data.gensim_dictionary(), n_components=spec["K"], iterations=spec["iters"],
                                          batchSize=spec.get("batch", 0), forgetting_rate=spec.get("forget", 0.6),
                                          rate_delay=spec.get("rate_delay", 1.0), seed=spec.get("seed", 1),
                                          expected_corpus_size=256)

    def components(self):
        return np.array(self.m.components_)

    def trained(self):
        return self.m.gensim_model is not None

    def seed(self, value):
        self.m.random_state = np.random.RandomState(value)


class Mod:
    """A module-level model (newModelAtRandom / train / query / ...) behind the
    same operations."""

    def __init__(self, spec, data):
        import importlib
        self.spec = spec
        self.mdl = importlib.import_module("sidetopics.model." + spec["kind"][4:])
        k = spec["kind"][4:]
        K, dt = spec["K"], np.float32 if k in ("lda_vb", "lda_cvb", "lda_cvb0") else np.float64
        if k in ("stm_yv", "stm_yv_bohning"):
            self.model = self.mdl.newModelAtRandom(data, 2, K, 0.1, 0.1, 1.1, dtype=dt)
        elif k in ("ctm", "ctm_bohning", "ctm_grad_arb"):
            self.model = self.mdl.newModelAtRandom(data, K, 1.1, dtype=dt)
        else:
            self.model = self.mdl.newModelAtRandom(data, K, dtype=dt)
        self.template = self.model
        self.is_trained = False

    def __getstate__(self):
        return {k: v for k, v in vars(self).items() if k != "mdl"}

    def __setstate__(self, state):
        import importlib
        self.__dict__.update(state, mdl=importlib.import_module("sidetopics.model." + state["spec"]["kind"][4:]))

    def plan(self, n):
        k = self.spec["kind"][4:]
        return self.mdl.newTrainPlan(n, logFrequency=self.spec.get("logf") or (n if k == "lro_vb" else 0))

    def new_query(self, data):
        k = self.spec["kind"][4:]
        return self.mdl.newQueryState(data, self.model, False) if k.startswith("mom_") \
            else self.mdl.newQueryState(data, self.model)

    def topic_dists(self, q):
        k = self.spec["kind"][4:]
        if k == "lro_vb":
            return np.array(self.mdl.lda.topicDists(q.ldaQuery))
        if k in ("ctm", "ctm_bohning", "ctm_grad_arb", "stm_yv", "stm_yv_bohning", "mtm3"):
            m = np.array(q.outMeans if k == "mtm3" else q.means)
            m = np.exp(m - m.max(axis=1)[:, None])
            return m / m.sum(axis=1)[:, None]
        return np.array(self.mdl.topicDists(q))

    def word_dists(self):
        fn = getattr(self.mdl, "wordDists", None)
        return np.array(fn(self.model) if fn else self.model.vocab)

    components = word_dists

    def trained(self):
        return self.is_trained

    def like(self, data, q):
        fn = getattr(self.mdl, "log_likelihood", None) or self.mdl.log_likelihood_point
        return float(np.sum(fn(data, self.model, q)))


class Outcome(dict):
    """What an operation gave: {'ok': value digest...} or {'err': type name}."""


class Session:
    """Carries out planned operations.  Everything nondeterministic an
    operation can see is set from its plan just before it starts."""

    def __init__(self, plan, own_rng=True):
        self.plan = plan
        self.own_rng = own_rng
        self.data, self.models, self.qs, self.ys = {}, {}, {}, {}
        self.values = {}
        self.stats = {"ops": 0, "faults": {}}

    # -- objects
    def ds(self, i):
        if i not in self.data:
            self.data[i] = make_data(self.plan["data"][i])
        return self.data[i]

    def model(self, i):
        if i not in self.models:
            spec = self.plan["models"][i]
            if spec["kind"].startswith("mod:"):
                if self.own_rng:
                    seams.seed_all(spec.get("seed", 1))
                self.models[i] = Mod(spec, self.ds(spec.get("d", 0)))
            elif spec["kind"] == "HDP":
                self.models[i] = Hdp(spec, self.ds(spec.get("d", 0)))
            else:
                self.models[i] = TM(spec)
        return self.models[i]

    # -- operations
    def do(self, op, fault=None):
        """Carry out one operation.  Returns its outcome as a plain dict."""
        self.stats["ops"] += 1
        for i in ([op["m"]] if "m" in op else []):
            self.model(i)
        for k in ("d", "d2"):
            if k in op:
                self.ds(op[k])
        if self.own_rng:
            seams.seed_all(op.get("seed", 7))
            if "m" in op and isinstance(self.models[op["m"]], Hdp):
                self.models[op["m"]].seed(op.get("seed", 7))
        if "poison" in op:
            seams.simalloc.set_pattern(op["poison"], op.get("seed", 7))
        fn = getattr(self, "op_" + op["op"])
        self.call = fault if fault is not None else contextlib.nullcontext()
        try:
            v = fn(op)
        except seams.SimInterrupt:
            return Outcome(err="SimInterrupt")
        except Exception as e:
            return Outcome(err=type(e).__name__, msg=str(e)[:160])
        self.values[id(op)] = v
        return Outcome(ok=digest(v), val=v)

    def op_fit(self, op):
        m, d = self.models[op["m"]], self.ds(op["d"])
        if isinstance(m, Mod):
            q = m.new_query(d)
            with self.call:
                model, q, metrics = m.mdl.train(d, m.model, q, m.plan(op.get("iters") or m.spec["iters"]))
            m.model, m.is_trained = model, True
            self.qs[(op["m"], op["d"])] = q
            return [m.topic_dists(q), m.word_dists()]
        with self.call:
            m.m.fit(d, persist_query_state=op.get("persist", False), resume=op.get("resume", False),
                    **settings(op))
        return m.components()

    def op_transform(self, op):
        m, d = self.models[op["m"]], self.ds(op["d"])
        if isinstance(m, Mod):
            q = m.new_query(d)
            with self.call:
                _, q = m.mdl.query(d, m.model, q, m.plan(op.get("iters") or m.spec["qiters"]))
            self.qs[(op["m"], op["d"])] = q
            return m.topic_dists(q)
        with self.call:
            y = m.m.transform(d, persist_query_state=op.get("persist", False), resume=op.get("resume", False),
                              **settings(op))
        self.ys[(op["m"], op["d"])] = y
        if op.get("persist") and isinstance(m, TM):
            self.qs[(op["m"], op["d"])] = m.m.query_state_
        return np.array(y)

    def op_fit_transform(self, op):
        m, d = self.models[op["m"]], self.ds(op["d"])
        with self.call:
            y = m.m.fit_transform(d, **settings(op))
        self.ys[(op["m"], op["d"])] = y
        return [np.array(y), m.components()]

    def op_score(self, op):
        m, d = self.models[op["m"]], self.ds(op["d"])
        if isinstance(m, Mod):
            q = self.qs.get((op["m"], op["d"]))
            if q is None:
                with self.call:
                    _, q = m.mdl.query(d, m.model, m.new_query(d), m.plan(2))
                return m.like(d, q)
            with self.call:
                return m.like(d, q)
        how, kw = op.get("with", "none"), {}
        if how == "y":
            kw["y"] = self.ys.get((op["m"], op["d"]))
            if kw["y"] is None:
                kw["y"] = np.full((d.doc_count, m.spec["K"]), 1.0 / m.spec["K"], dtype=m.components().dtype)
        elif how == "qs":
            kw["y_query_state"] = self.qs.get((op["m"], op["d"]))
        with self.call:
            r = m.m.score(d, method=op.get("method", "log_likelihood_point"), **kw)
        return float(r)

    def op_infer(self, op):
        """The inference state of a transform, which is kept only if asked."""
        m, d = self.models[op["m"]], self.ds(op["d"])
        with self.call:
            q = m.m.find_query_state_via_transform(d, settings(op), op.get("persist", False))
        self.qs[(op["m"], op["d"])] = q
        return np.array(wrapper.TopicModelType[m.m.kind].value.topicDists(q))

    def op_components(self, op):
        return self.models[op["m"]].components()

    def op_copy(self, op):
        """Model op['m2'] becomes a copy of model op['m']."""
        src = self.models[op["m"]]
        new = copy.copy(src)
        if isinstance(src, Mod):
            new.model = src.mdl.newModelFromExisting(src.model)
        else:
            new.m = src.m.copy() if isinstance(src, TM) else copy.deepcopy(src.m)
        self.models[op["m2"]] = new
        for (mm, dd), q in list(self.qs.items()):
            if mm == op["m"]:
                self.qs[(op["m2"], dd)] = copy.deepcopy(q)
        for (mm, dd), y in list(self.ys.items()):
            if mm == op["m"]:
                self.ys[(op["m2"], dd)] = np.array(y)
        return new.components() if new.trained() else None

    def op_reseed(self, op):
        m = self.models[op["m"]]
        if isinstance(m, Hdp):
            m.seed(op["value"])
        else:
            m.m.seed = op["value"]
        return None

    def op_renew(self, op):
        """The dataset object is dropped and an equal one made, at the same
        address when the allocator allows."""
        old = self.data.pop(op["d"])
        oid = id(old)
        words, feats, links, cats = old.words, old.feats, old.links, old.doc_categories
        del old
        gc.collect()
        keep = []
        new = None
        for _ in range(40):
            new = DataSet(words, feats, links, doc_categories=cats, debug=True)
            if id(new) == oid:
                break
            keep.append(new)
        self.data[op["d"]] = new
        return None

    def forget(self, d):
        """What was inferred for dataset d no longer describes it."""
        for kept in (self.qs, self.ys):
            for k in [k for k in kept if k[1] == d]:
                del kept[k]

    def op_prune(self, op):
        """Documents with few distinct words are dropped, the others shuffled."""
        d = self.ds(op["d"])
        distinct = np.sort(np.diff(d.words.tocsr().indptr))
        least = int(distinct[int(op["frac"] * len(distinct) * 0.999)]) if len(distinct) > 2 else 0
        self.forget(op["d"])
        with contextlib.redirect_stdout(None):
            return [int(i) for i in d.prune_and_shuffle(least, seed=op["seed"])]

    def op_convert(self, op):
        self.forget(op["d"])
        self.ds(op["d"]).convert_to_dtype(DTYPES[op["dtype"]])
        return None

    def op_make(self, op):
        return None

