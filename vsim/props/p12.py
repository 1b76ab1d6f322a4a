"""P12: the parts of a document stay together in a dataset.

A pool of datasets goes through a history of operations, some of which fail
(allocations and library calls fail at planned points, or the request is
impossible).  A dense reference goes through the same history; after every
operation every dataset of the pool is compared with its reference."""
import contextlib
import io
import os
import pickle
import shutil
import tempfile

import scipy.sparse as ssp

from .faulty import *
from ..world import DataSet

DT = {"f8": np.float64, "f4": np.float32, "i4": np.int32, "u2": np.uint16}


class Ref:
    """What a dataset ought to hold: dense parts, one row per document."""

    def __init__(self, W, X, L, cats, words, order, cols):
        self.W, self.X, self.L, self.cats, self.words, self.order = W, X, L, cats, words, order
        self.cols = cols     # do the link columns follow the rows?
        self.link_cell = self.feat_cell = None

    def rows(self, idx, cols=None, order=None):
        idx = np.asarray(idx, dtype=int)
        L = None if self.L is None else self.L[idx]
        if L is not None and cols is not None:
            L = L[:, np.asarray(cols, dtype=int)]
        r = Ref(self.W[idx], None if self.X is None else self.X[idx], L,
                None if self.cats is None else [self.cats[i] for i in idx], self.words,
                self.order[idx] if order is None else np.asarray(order), False)
        return r

    def copy(self):
        r = Ref(self.W, self.X, self.L, self.cats, self.words, self.order, self.cols)
        return r


def dense(m):
    if m is None:
        return None
    return np.array(m.todense() if ssp.issparse(m) else m)


def compare(ds, ref):
    """None, or how the dataset differs from its reference."""
    n = ref.W.shape[0]
    if ds.words.shape != ref.W.shape:
        return "has words of shape %s instead of %s" % (ds.words.shape, ref.W.shape)
    for name, have, want in (("words", ds.words, ref.W), ("features", ds.feats, ref.X), ("links", ds.links, ref.L)):
        have = dense(have)
        if (have is None) != (want is None):
            return "lost or gained its " + name
        if have is None:
            continue
        if have.shape != want.shape:
            return "has %s of shape %s instead of %s" % (name, have.shape, want.shape)
        if not np.array_equal(have, want):
            i = int(np.argwhere((have != want).any(axis=1))[0][0])
            return "row %d has other %s than its document" % (i, name)
    cats = None if ds.doc_categories is None else [list(c) for c in ds.doc_categories]
    if cats != (None if ref.cats is None else [list(c) for c in ref.cats]):
        return "has other categories than its documents"
    if (None if ds.word_dict is None else list(ds.word_dict)) != (None if ref.words is None else list(ref.words)):
        return "has another dictionary than its words"
    if not np.array_equal(np.asarray(ds.order), np.asarray(ref.order)):
        return "reports order %s instead of %s" % (list(ds.order)[:12], list(ref.order)[:12])
    if ds.doc_count != n or len(ds) != n or ds.word_count != ref.W.sum():
        return "reports %d documents and %s words" % (ds.doc_count, ds.word_count)
    return None


def draw_source(rng):
    D, T = rng.randint(4, 14), rng.randint(5, 20)
    return {"D": D, "T": T, "seed": draw_seed(rng), "rate": rng.choice([.3, .6, 1.2]), "mult": rng.choice([1, 1, 1, 40, 900]), "dtype": rng.choice(["f8", "f4", "i4", "u2"]),
            "feats": rng.choice([None, "csr", "csr", "dense"]), "links": rng.choice([None, "square", "square", "wide"]),
            "cats": rng.choice([None, "list", "array"]), "dict": rng.random() < .5, "empty": rng.random() < .3,
            "order": rng.random() < .3, "files": rng.random() < .4,
            "limit": rng.choice([0, 0, rng.randint(1, D), D + 3]), "list": rng.random() < .3}


def draw_dataset_op(rng):
    kind = rng.choice(("limit", "copy", "copy", "deep", "deep", "deep", "with", "minfreq", "dtype", "dtype", "intercept", "undirected",
                       "binary", "prune", "prune", "prune", "prune", "cv", "cv", "cv", "completion", "completion",
                       "linksplit", "folded", "onfeature", "onfeature"))
    op = {"op": kind, "d": rng.randrange(8), "seed": draw_seed(rng)}
    if kind == "limit":
        op.update(n=rng.randint(1, 14), order=rng.random() < .5)
    elif kind == "minfreq":
        op["n"] = rng.randint(0, 4)
    elif kind == "dtype":
        op["to"] = [rng.choice(sorted(DT)) for _ in range(rng.choice([1, 3]))]
    elif kind == "prune":
        op.update(words=rng.choice([0, .5, 1, 2, 3, 3, 5, 99]), links=rng.choice([0, 0, 1, 2, 4, 20, 100]), s=rng.randrange(1000))
    elif kind in ("cv", "folded"):
        op.update(fold=rng.randint(0, 3), folds=rng.randint(1, 5), min=rng.randint(0, 5))
    elif kind == "completion":
        op.update(min=rng.choice([0, 0, 1, 2, 3]), s=rng.randrange(1000), prop=rng.choice([.3, .5, .8]))
    elif kind == "linksplit":
        op.update(symm=rng.random() < .5, s=rng.randrange(1000))
    elif kind == "onfeature":
        op.update(f=[rng.randrange(4) for _ in range(rng.randint(1, 3))])
    return op


def gen(rng, tier):
    ops = []
    for _ in range(rng.randint(2, 10)):
        op = draw_dataset_op(rng)
        if rng.random() < .4:
            op["fault"] = draw_fault(rng)
            op["fault"]["kind"] = rng.choice(["alloc", "lib"])
        ops.append(op)
    return {"source": [draw_source(rng)], "ops": ops, "models": [], "data": []}


def source(spec):
    rs = np.random.RandomState(spec["seed"])
    D, T = spec["D"], spec["T"]
    W = rs.poisson(spec["rate"], (D, T))
    W[np.arange(D), rs.randint(0, T, D)] += 1 + np.arange(D)     # rows differ
    W *= spec.get("mult", 1)
    if spec["empty"]:
        W[rs.randint(D)] = 0
    X = None
    if spec["feats"]:
        X = rs.randint(0, 2, (D, 4)) * (1.0 + np.arange(D))[:, None]
        X = ssp.csr_matrix(X) if spec["feats"] == "csr" else X
    L = None
    if spec["links"]:
        P = D if spec["links"] == "square" else D + 3
        L = (rs.rand(D, P) < .35) * (1 + rs.randint(0, 200, (D, P)))
        L = ssp.csr_matrix(L.astype(np.float64))
    cats = None
    if spec["cats"]:
        cats = [["c%d" % i] + ["x"] * (i % 2) for i in range(D)]
        if spec["cats"] == "array":
            a = np.empty(D, dtype=object)
            a[:] = cats
            cats = a
    words = ["w%d" % i for i in range(T)] if spec["dict"] else None
    order = rs.permutation(D * 2)[:D] if spec["order"] else None
    if spec.get("files"):
        return from_files(spec, rs, ssp.csr_matrix(W.astype(DT[spec["dtype"]])), X, L, cats, words)
    ds = DataSet(ssp.csr_matrix(W.astype(DT[spec["dtype"]])), X, L, words, cats, order=order, debug=True)
    ref = Ref(dense(ds.words), dense(X), dense(L), None if cats is None else [list(c) for c in cats], words,
              np.arange(D) if order is None else order, True)
    return ds, ref


def flat(cats):
    """The categories as they are stored: the last of a document ends its line."""
    return [c + ("\n" if i == len(cs) - 1 else "") for cs in cats for i, c in enumerate(cs)]


def write_files(root, W, X, L, cats, words, bare=False):
    """bare: the last category does not end its line."""
    names = []
    for name, x in (("words", W), ("feats", X), ("links", L), ("dict", words), ("cats", None if cats is None else flat(cats))):
        if name == "cats" and bare and x:
            x[-1] = x[-1].rstrip("\n")
        names.append(None if x is None else os.path.join(root, name + ".pkl"))
        if x is not None:
            with open(names[-1], "wb") as f:
                pickle.dump(x, f)
    return names


def loaded_rows(D, order, limit):
    rows = np.arange(D) if order is None else np.asarray(order)
    return rows[:limit] if limit > 0 else rows


def from_files(spec, rs, W, X, L, cats, words):
    D = W.shape[0]
    order = rs.permutation(D)[:rs.randint(1, D + 1)] if spec["order"] else None
    root = tempfile.mkdtemp(prefix="p12-")
    try:
        names = write_files(root, W, X, L, cats, words)
        ds = DataSet.from_files(*names, order=list(order) if order is not None and spec["list"] else order, limit=spec["limit"])
    finally:
        shutil.rmtree(root)
    idx = loaded_rows(D, order, spec["limit"])
    ref = Ref(dense(W), dense(X), dense(L), None if cats is None else [list(c) for c in cats], words, np.arange(D), True)
    out = ref.rows(idx, idx if square(ref) else None, order=idx)
    out.cols = True
    return ds, out


def square(ref):
    return ref.L is not None and ref.L.shape[0] == ref.L.shape[1]


class Impossible(Exception):
    """The reference cannot tell what this should give: leave it out."""


def expected_prune(ref, op):
    """The set of rows that ought to remain."""
    keep = np.where((ref.W != 0).sum(axis=1) >= op["words"])[0] if (ref.W != 0).sum(axis=1).min() < op["words"] else np.arange(len(ref.W))
    if op["links"] > 0 and ref.L is not None:
        while True:
            L = ref.L[keep][:, keep] if square(ref) else ref.L[keep]
            ok = L.sum(axis=1) >= op["links"]
            if ok.all():
                break
            keep = keep[ok]
    return set(int(i) for i in keep)


def perform(ds, op):
    """The operation on the real dataset; new datasets (and an extra)."""
    k = op["op"]
    if k == "limit":
        o = np.random.RandomState(op["seed"]).permutation(100)[:ds.doc_count] if op["order"] else None
        return [DataSet(ds.words, ds.feats, ds.links, ds.word_dict, ds.doc_categories, order=o, limit=op["n"], debug=True)], o
    if k == "copy":
        return [ds.copy()], None
    if k == "deep":
        return [ds.copy(deep=True)], None
    if k == "with":
        return [ds.copy_with_changes(words=ssp.csr_matrix(ds.words[:, ::-1] if False else ds.words * 2))], None
    if k == "minfreq":
        return [ds.words_with_min_freq(op["n"])], None
    if k == "dtype":
        to = [DT[t] for t in op["to"]]
        ds.convert_to_dtype(to[0]) if len(to) == 1 else ds.convert_to_dtypes(*to)
        return [], to
    if k == "intercept":
        return [], ds.add_intercept_to_feats_if_required()
    if k == "undirected":
        ds.convert_to_undirected_graph()
        return [], None
    if k == "binary":
        ds.convert_to_binary_link_matrix()
        return [], None
    if k == "prune":
        return [], ds.prune_and_shuffle(op["words"], op["links"], seed=op["s"])
    if k == "cv":
        i = ds.cross_valid_split_indices(op["fold"], op["folds"])
        return list(ds.cross_valid_split(op["fold"], op["folds"], debug=True)), i
    if k == "completion":
        return list(ds.doc_completion_split(op["min"], op["s"], op["prop"], debug=True)), None
    if k == "linksplit":
        return list(ds.link_prediction_split(op["symm"], seed=op["s"])), None
    if k == "folded":
        a, b, c = ds.folded_link_prediction_split(op["min"], op["fold"], op["folds"])
        return [a, b], c
    if k == "onfeature":
        a, b, c = ds.split_on_feature(op["f"])
        return [a, b], c
    raise KeyError(k)


def share(a, b):
    def parts(m):
        return [] if m is None else [m.data, m.indices, m.indptr] if ssp.issparse(m) else [m]
    return any(np.shares_memory(p, q) for p in parts(a) for q in parts(b))


def reference(ref, op, ds, new, extra, pool):
    """Returns the references of the new datasets, having changed `ref` where
    the operation works in place; or raises AssertionError with the difference."""
    k = op["op"]
    if k == "limit":
        n = min(op["n"], len(ref.W))
        if n < len(ref.W):
            o = extra[:n] if extra is not None else np.arange(n)
            return [ref.rows(np.arange(n), np.arange(n) if square(ref) else None, order=o)]
        r = ref.copy()
        r.order = extra if extra is not None else np.arange(n)
        return [r]
    if k in ("copy", "deep"):
        return [ref.copy()]
    if k == "with":
        r = ref.copy()
        r.W = ref.W * 2
        return [r]
    if k == "minfreq":
        keep = np.where((ref.W != 0).sum(axis=0) >= op["n"])[0]
        r = ref.copy()
        r.W = ref.W[:, keep]
        r.words = None if ref.words is None else [ref.words[i] for i in keep]
        return [r]
    if k == "dtype":
        to = extra * 3
        for name, have, t in (("words", ds.words, to[0]), ("features", ds.feats, to[1]), ("links", ds.links, to[2])):
            assert have is None or have.dtype == t, "%s were not converted to %s but are %s" % (name, np.dtype(t), have.dtype)
        ref.W = ref.W.astype(to[0])
        ref.X = None if ref.X is None else ref.X.astype(to[1])
        ref.L = None if ref.L is None else ref.L.astype(to[2])
        return []
    if k == "intercept":
        if ref.X is not None and extra:
            ref.X = np.hstack((ref.X, np.ones((len(ref.X), 1))))
        return []
    if k == "undirected":
        ref.L = ref.L + ref.L.T
        return []
    if k == "binary":
        for d, r in pool:   # an operation in place, on what other datasets may refer to
            if d is not ds and share(d.links, ds.links):
                r.L = dense(d.links)
        ref.L = (ref.L != 0).astype(ref.L.dtype)
        return []
    if k == "prune":
        got = [int(i) for i in extra]
        assert len(set(got)) == len(got) and set(got) == expected_prune(ref, op), \
            "kept documents %s instead of %s" % (sorted(got), sorted(expected_prune(ref, op)))
        new = ref.rows(got, got if square(ref) else None, order=got)
        ref.W, ref.X, ref.L, ref.cats, ref.order = new.W, new.X, new.L, new.cats, new.order
        return []
    if k == "cv":
        return [ref.rows(i) for i in extra]
    if k == "completion":
        out = []
        if new[0] is ds and new[1] is ds:     # as documented, when there are features
            assert ref.X is not None, "gave back the dataset itself for both halves"
            return [ref, ref]
        keep = np.arange(len(ref.W))
        a, b = dense(new[0].words), dense(new[1].words)
        if op["min"] > 0:   # rows are known by their order
            where = {int(o): i for i, o in enumerate(ref.order)}
            keep = np.array([where[int(o)] for o in new[0].order], dtype=int)
        assert a.shape == b.shape == (len(keep), ref.W.shape[1]), "halves of shapes %s and %s" % (a.shape, b.shape)
        assert np.array_equal(a + b, ref.W[keep]), "the halves are not those of the documents they are said to be"
        for w in (a, b):
            r = ref.rows(keep) if op["min"] > 0 else ref.copy()
            r.W = w
            out.append(r)
        return out
    if k in ("linksplit", "folded"):
        out = []
        for d in new:
            r = ref.copy()
            r.L = dense(d.links)
            assert r.L.shape == ref.L.shape and ((r.L == 0) | (r.L == ref.L)).all(), "has links which its documents do not have"
            out.append(r)
        return out
    if k == "onfeature":
        m = np.abs(ref.X[:, op["f"]].sum(axis=1))
        tr, qu = np.where(m == 0)[0], np.where(ref.X[:, op["f"][0]] > 0)[0]
        assert [int(i) for i in extra] == [int(i) for i in tr], "reports training documents %s instead of %s" % (list(extra), list(tr))
        L = ref.L
        a, b = ref.rows(tr, tr if L is not None else None), ref.rows(qu, tr if L is not None else None)
        return [a, b]
    raise KeyError(k)


def sane(ref, op):
    """Is it known what the operation ought to give?"""
    k = op["op"]
    if k in ("prune", "limit") and square(ref) and not ref.cols:
        return False       # link columns which look like, but are not, the rows
    if k == "onfeature" and ref.L is not None and not (square(ref) and ref.cols):
        return False
    if k == "undirected" and not (square(ref) and ref.cols):
        return False
    if k == "linksplit" and op["symm"] and (not square(ref) or (ref.L is not None and not np.array_equal(ref.L, ref.L.T))):
        return False
    if k == "completion" and op["min"] > 0 and len(set(map(int, ref.order))) < len(ref.order):
        return False
    if k == "with" and ref.W.dtype == np.uint16:
        return False
    return True


def must(ref, op, ds):
    """Is there no reason to refuse the operation?"""
    k, D = op["op"], len(ref.W)
    if D < 2:
        return False
    if k in ("limit", "copy", "deep", "with", "dtype"):
        return True
    if k == "minfreq":
        return ((ref.W != 0).sum(axis=0) >= op["n"]).any()
    if k == "binary":
        return ref.L is not None
    if k == "prune":
        return (ref.W != 0).any() and len(expected_prune(ref, op)) > 0
    if k == "cv":
        return op["folds"] > 1 and op["fold"] < op["folds"]
    if k == "completion":
        return op["min"] == 0
    if k == "linksplit":
        return ref.L is not None
    if k == "folded":
        return ref.L is not None and op["fold"] < op["folds"]
    if k == "onfeature":
        return ref.X is not None and ssp.issparse(ds.feats) and (np.abs(ref.X[:, op["f"]].sum(axis=1)) == 0).any() and \
            (ref.X[:, op["f"][0]] > 0).any()
    return False


def history(plan, faulty):
    st, viol, trace = Stats(), [], []
    pool = [source(plan["source"][0])]
    hits = 0
    counts = []
    out = io.StringIO()
    if plan["source"][0].get("files"):
        st.count["loaded from files"] += 1

    def bad(sig, msg):
        viol.append({"sig": sig, "msg": msg, "trace": list(trace)})

    def types():
        return [[None if m is None else str(m.dtype) for m in (d.words, d.feats, d.links)] for d, _ in pool]

    def check(when):
        for i, (d, r) in enumerate(pool):
            w = compare(d, r)
            if w:
                bad("misaligned " + when.split()[0], "dataset %d %s, after %s" % (i, w, when))
                return

    with contextlib.redirect_stdout(out):
        check("loading" if plan["source"][0].get("files") else "creation")
        for i, op in enumerate(plan["ops"]):
            if viol:
                break
            ds, ref = pool[op["d"] % len(pool)]
            label = ", ".join("%s=%s" % (k, v) for k, v in op.items() if k not in ("op", "fault", "seed"))
            name = "%s(%s)" % (op["op"], label)
            if not sane(ref, op):
                counts.append(0)
                continue
            st.count["operations"] += 1
            st.count["op " + op["op"]] += 1
            seams.seed_all(op["seed"])
            fault, held = None, types()
            if op.get("fault"):
                n = faulty[i] if faulty else 0
                if not faulty or n:
                    fault = seams.Fault(op["fault"]["kind"], at(op["fault"], n) if faulty else 0)
            try:
                with fault or contextlib.nullcontext():
                    new, extra = perform(ds, op)
                w = None
            except Exception as e:
                w = "%s: %s" % (type(e).__name__, str(e)[:60])
            counts.append(fault.count if fault is not None and not w else 0)
            struck = faulty and fault is not None and fault.fired
            if struck:
                hits += 1
                st.faults[fault.kind] += 1
                st.sets["fault points"].add("%s %s" % (op["op"], fault.at))
            trace.append("dataset %d: %s%s%s" % (op["d"] % len(pool), name, "   <- fails: " + fault.kind + " " + str(fault.at) if struck else "",
                                                 " -> " + w if w else ""))
            if w:
                if not struck:
                    st.count["operations refused"] += 1
                    st.sets["errors seen"].add(op["op"] + " " + w)
                    if must(ref, op, ds):
                        bad("refused " + op["op"], "%s was refused: %s" % (name, w))
                check("%s failed" % name)
                if not viol and types() != held:
                    bad("half-converted", "the number types of the datasets changed from %s to %s, as %s failed" % (held, types(), name))
                continue
            if struck:
                st.count["faults the code absorbed"] += 1
            try:
                refs = reference(ref, op, ds, new, extra, pool)
            except AssertionError as e:
                bad("wrong " + op["op"], "%s: %s" % (name, e))
                break
            if [t for (d, _), t in zip(pool, types()) if d is not ds] != [t for (d, _), t in zip(pool, held) if d is not ds]:
                bad("converted-others", "%s changed the number types of other datasets" % name)
            for d, r in zip(new, refs):
                if d is ds:
                    continue
                if op["op"] in ("copy", "deep", "with", "minfreq", "completion", "linksplit", "folded"):
                    r.cols = ref.cols
                elif op["op"] in ("limit",):
                    r.cols = ref.cols
                elif op["op"] == "onfeature":
                    r.cols = r is refs[0]
                elif op["op"] == "cv":
                    r.cols = False
                if op["op"] == "deep":
                    for x, y in ((d.words, ds.words), (d.feats, ds.feats), (d.links, ds.links)):
                        if share(x, y):
                            bad("deep-copy-shares", "a deep copy shares arrays with its source")
                    if d.order is ds.order or np.shares_memory(d.order, ds.order) or \
                            (d.doc_categories is not None and (d.doc_categories is ds.doc_categories or any(
                                a is b for a, b in zip(d.doc_categories, ds.doc_categories)))) or \
                            (d.word_dict is not None and d.word_dict is ds.word_dict):
                        bad("deep-copy-shares", "a deep copy shares its order, categories or dictionary with its source")
                if len(pool) < 8:
                    pool.append((d, r))
                else:
                    pool[1 + i % 7] = (d, r)
            if not viol:
                check(name)
    return counts, viol, st, trace, hits


def run(plan):
    counts, viol, st, trace, hits = isolate(history, plan, None)
    if not viol and any(op.get("fault") for op in plan["ops"]):
        _, viol, st, trace, hits = isolate(history, plan, counts)
    return report(plan, viol, st, digest(trace) if st.count["operations"] > 1 else None, {"source": plan["source"], "history": trace})


gen_only, gen_run, run = entry(gen, run)
