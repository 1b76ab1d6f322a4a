"""P15: learnt counts account for every word exactly once per fit.

A session of fits, inferences and calls which fail at a planned point, with the
inner counts of the model and of the kept inference state compared, after every
operation, to a reference which only adds up the words of the datasets of the
fits that succeeded."""
from .faulty import *
from ..world import ssp, DataSet, wrapper

KINDS = ("LDA_CVB0", "LDA_CVB", "LDA_GIBBS", "LDA_VB_PYTHON_IMPL", "LDA_VB")
MODS = ("mod:lda_cvb0", "mod:lda_cvb", "mod:lda_gibbs", "mod:lda_vb_python")


def gen(rng, tier):
    mod = rng.random() < 0.15
    kinds = MODS if mod else KINDS + ("LDA_CVB0", "LDA_CVB")
    T = rng.randint(6, 60)
    plan = {"models": [draw_model(rng, kinds, tier)], "data": draw_data(rng, rng.randint(2, 3), tier, T=T)}
    spec = plan["models"][0]
    spec.pop("batch", None)      # online learning weighs words by design
    if spec["kind"] in ("LDA_CVB0", "LDA_CVB") and rng.random() < .4:
        spec["logf"] = rng.choice([1, 2, 3, 5])
    if spec["kind"] == "LDA_GIBBS" and rng.random() < .3:
        spec["K"] = rng.choice([11, 30, 100, 200, 255])
    for d in plan["data"]:
        d["gap"] = True          # some words no document has
    fix_data_for(plan)
    nd, kept = len(plan["data"]), None
    ops = []
    for j in range(rng.randint(2, 8)):
        r, d = rng.random(), rng.randrange(nd)
        if j == 0 or r < .45:
            op = op_base(rng, "fit", 0, d, iters=rng.choice([1, rng.randint(1, 12)]), persist=not mod and rng.random() < .5)
            if kept is not None and rng.random() < .4:
                op.update(d=kept, resume=True)
            kept = op["d"] if op["persist"] else None
        elif kept is not None and r < .6:
            op = op_base(rng, "transform", 0, kept, iters=rng.randint(1, 6), resume=True, persist=rng.random() < .7)
            kept = kept if op["persist"] else None
        elif not mod and r < .68:
            op = op_base(rng, "fit_transform", 0, d, iters=rng.randint(1, 6))
            kept = None
        else:
            op = draw_inference(rng, 0, d, spec)
            if op["op"] == "transform" and not mod:
                op["persist"] = rng.random() < .6
                kept = d if op["persist"] else None
        if rng.random() < .3 and op["op"] != "fit_transform" and not (mod and op["op"] == "fit"):
            op["fault"] = draw_fault(rng)
        ops.append(op)
    plan["ops"] = ops
    return plan


def make(spec):
    ds = make_data({k: v for k, v in spec.items() if k != "gap"})
    W = ds.words.toarray()
    W[:, np.arange(W.shape[1]) % 7 == 3] = 0
    for d in range(W.shape[0]):
        if W[d].sum() == 0:
            W[d, d * 7 % W.shape[1] // 7 * 7] = 1
    return DataSet(ssp.csr_matrix(W.astype(ds.words.dtype)), ds.feats, ds.links, debug=True)


class Ledger:
    """What the model has been taught."""

    def __init__(self, T):
        self.word, self.lens, self.last, self.fits = np.zeros(T), [], None, 0

    def add(self, W):
        self.word = self.word + W.sum(axis=0)
        self.lens = self.lens + list(W.sum(axis=1))
        self.last = W
        self.fits += 1

    def copy(self):
        c = Ledger(0)
        c.word, c.lens, c.last, c.fits = self.word, list(self.lens), self.last, self.fits
        return c


def off(what, got, want, tol):
    got, want = np.asarray(got, dtype=np.float64), np.asarray(want, dtype=np.float64)
    if got.shape != want.shape:
        return "%s have shape %s, not %s" % (what, got.shape, want.shape)
    d = abs(got - want)
    lim = tol * (1 + abs(want))
    if not (d <= lim).all():
        i = np.unravel_index(int(np.argmax(np.where(np.isfinite(d), d - lim, np.inf))), d.shape) if d.ndim else ()
        return "%s: %.8g where the words give %.8g%s" % (what, got[i], want[i], " (at %s)" % (tuple(int(x) for x in i),) if d.ndim else "")
    return None


def tolerance(state_dtype, total, updates):
    """Room for rounding: the kernels add and subtract in place, once per word
    and iteration."""
    eps = np.finfo(state_dtype).eps
    return max(1e-9, 40 * eps * (4 + np.sqrt(max(1, updates))))


def lists_match(W_list, docLens, W, what):
    for d in range(W.shape[0]):
        n = int(docLens[d])
        if n != W[d].sum():
            return "%s: document %d has %d words, not %d" % (what, d, n, W[d].sum())
        if not (np.bincount(np.asarray(W_list[d, :n], dtype=np.int64), minlength=W.shape[1])[:W.shape[1]] == W[d]).all():
            return "%s: the words listed for document %d are not its words" % (what, d)
    return None


def check_cvb(ms, qs, led, Wq, updates):
    out = []
    f = np.float64
    if ms is not None and ms.n_k is not None:
        tol = tolerance(np.asarray(ms.n_k).dtype, led.word.sum(), updates)
        out += [off("learnt counts per word", np.asarray(ms.n_kt, f).sum(axis=0), led.word, tol),
                off("learnt counts", np.asarray(ms.n_k, f).sum(), led.word.sum(), tol),
                off("learnt topic totals against the sums over words", np.asarray(ms.n_k, f), np.asarray(ms.n_kt, f).sum(axis=1), tol * max(1, np.sqrt(led.word.sum()))),
                off("learnt counts per document", np.asarray(ms.n_dk, f).sum(axis=1), led.lens, tol)]
        if hasattr(ms, "v_k"):
            out.append(off("variance totals against the sums over words", np.asarray(ms.v_k, f), np.asarray(ms.v_kt, f).sum(axis=1), tol * max(1, np.sqrt(led.word.sum()))))
    elif led.fits:
        out.append("nothing is learnt after %d fits" % led.fits)
    if qs is not None:
        D, T = Wq.shape
        # the counts of the model were added to and then taken off those kept
        base = 1 + led.word.max()
        tol = tolerance(np.asarray(qs.n_k).dtype, Wq.sum(), updates) * base
        tolk = tolerance(np.asarray(qs.n_k).dtype, Wq.sum(), updates) * (1 + led.word.sum())
        lens, z = np.asarray(qs.docLens), np.asarray(qs.z_dnk, f)
        b = lists_match(np.asarray(qs.W_list), lens, Wq, "kept state")
        if b:
            return out + [b]
        out += [off("kept counts per document", np.asarray(qs.n_dk, f).sum(axis=1), Wq.sum(axis=1), tol / base),
                off("kept counts per word", np.asarray(qs.n_kt, f).sum(axis=0), Wq.sum(axis=0), tol),
                off("kept counts", np.asarray(qs.n_k, f).sum(), Wq.sum(), tolk)]
        K = z.shape[2]
        kt, dk, vkt = np.zeros((K, T)), np.zeros((D, K)), np.zeros((K, T))
        for d in range(D):
            zz = z[d, :int(lens[d])]
            w = np.asarray(qs.W_list)[d, :int(lens[d])]
            dk[d] = zz.sum(axis=0)
            np.add.at(kt.T, w, zz)
            np.add.at(vkt.T, w, zz * (1 - zz))
        out += [off("kept counts per document against the assignments", np.asarray(qs.n_dk, f), dk, tol / base * 3),
                off("kept counts per word against the assignments", np.asarray(qs.n_kt, f), kt, tol * 3),
                off("kept topic totals against the assignments", np.asarray(qs.n_k, f), kt.sum(axis=1), tolk * 3)]
        if hasattr(qs, "v_kt"):
            out += [off("kept variances per word against the assignments", np.asarray(qs.v_kt, f), vkt, tol * 3),
                    off("kept variance totals against the assignments", np.asarray(qs.v_k, f), vkt.sum(axis=1), tolk * 3)]
    return [o for o in out if o]


def check_gibbs(ms, qs, led, Wq):
    out = []
    if ms is not None and led.fits:
        N, T, K = led.last.sum(), led.last.shape[1], ms.K
        a, b = np.asarray(ms.topicPrior, float), np.broadcast_to(np.asarray(ms.vocabPrior, float), (T,))
        S = ms.numSamples
        v = np.asarray(ms.vocabSum)
        gap = np.flatnonzero(led.last.sum(axis=0) == 0)
        if gap.size and S == 1:
            # a word never seen shows how many words a topic holds
            nk = b[gap[0]] / v[:, gap[0]] - b.sum()
            out.append(off("learnt counts (all topics)", nk.sum(), N, 1e-6))
            counts = v * (nk + b.sum())[:, None] - b
            out.append(off("learnt counts per word", counts.sum(axis=0), led.last.sum(axis=0), 1e-6))
            if (abs(counts - np.rint(counts)) > 1e-6 * (1 + abs(counts))).any() or (counts < -1e-6).any():
                out.append("learnt counts are not counts: %.8g" % counts.ravel()[np.argmax(abs(counts - np.rint(counts)))])
    elif led.fits:
        out.append("nothing is learnt after %d fits" % led.fits)
    if qs is not None:
        a = np.asarray(ms.topicPrior, float)
        z, w, lens = np.asarray(qs.z_list), np.asarray(qs.w_list, dtype=np.int64), np.asarray(qs.docLens)
        if len(z) != Wq.sum() or len(w) != Wq.sum():
            return out + ["%d assignments are kept for %d words" % (len(z), Wq.sum())]
        at, S = 0, qs.numSamples
        for d in range(Wq.shape[0]):
            n = int(lens[d])
            if n != Wq[d].sum() or not (np.bincount(w[at:at + n], minlength=Wq.shape[1])[:Wq.shape[1]] == Wq[d]).all():
                out.append("the words kept for document %d are not its words" % d)
                break
            at += n
        if int(z.max()) >= ms.K:
            out.append("a word is assigned to topic %d of %d" % (z.max(), ms.K))
        counts = np.asarray(qs.topicSum) * (Wq.sum(axis=1) + a.sum())[:, None] - S * a
        out.append(off("kept counts per document", counts.sum(axis=1), S * Wq.sum(axis=1), 1e-6))
        if (abs(counts - np.rint(counts)) > 1e-6 * (1 + abs(counts))).any() or (counts < -1e-6).any():
            out.append("kept counts of documents are not counts: %.8g" % counts.ravel()[np.argmax(abs(counts - np.rint(counts)))])
        elif S == 1:
            dk, at = np.zeros_like(counts), 0
            for d in range(Wq.shape[0]):
                n = int(lens[d])
                dk[d] = np.bincount(z[at:at + n], minlength=ms.K)[:ms.K]
                at += n
            out.append(off("kept counts per document against the assignments", counts, dk, 1e-6) if qs.last_is_sample else None)
    return [o for o in out if o]


def check_vb(ms, qs, led, Wq, prior, python):
    out = []
    if ms is not None and led.fits:
        K, T = np.asarray(ms.wordDists).shape
        w = np.asarray(ms.wordDists, float)
        tol = 1e-7 if python else 1e-5 * np.sqrt(4 + led.last.sum())
        out += [off("learnt counts per word", w.sum(axis=0) - K * prior, led.last.sum(axis=0), tol),
                off("learnt counts", w.sum() - K * T * prior, led.last.sum(), tol)]
    if qs is not None and python:
        rows = np.asarray(qs.topicDists, float)
        a = np.asarray(ms.topicPrior, float)
        out.append(off("kept counts per document", rows.sum(axis=1) - a.sum(), Wq.sum(axis=1), 1e-7))
        if (rows - a < -1e-6 * (1 + rows)).any():
            out.append("kept counts of a document are negative")
    return [o for o in out if o]


class Query:
    """A Gibbs state, with whether the last sweep was one that is sampled."""

    def __init__(self, q, last):
        self.__dict__.update(q._asdict(), last_is_sample=last)


def state_of(s):
    m = s.models[0]
    if isinstance(m, Mod):
        return m.model if m.is_trained else None
    return m.m._model_state


def check(s, plan, op, led, updates):
    m, kind = s.models[0], plan["models"][0]["kind"]
    k = kind.replace("mod:", "").lower()
    ms = state_of(s)
    qs = Wq = None
    if isinstance(m, Mod):
        qs = s.qs.get((0, op["d"]))
    else:
        qs = m.m.query_state_
        if qs is not None and op["d"] not in s.kept:
            qs = None
    if ms is None:
        qs = None
    if qs is not None:
        Wq = s.ds(op["d"]).words.toarray().astype(np.int64)
    if "cvb" in k:
        return check_cvb(ms, qs, led, Wq, updates)
    if "gibbs" in k:
        if qs is not None:
            qs = Query(qs, qs.numSamples == 1 and s.last_sweep)
        return check_gibbs(ms, qs, led, Wq)
    prior = plan["models"][0].get("beta")
    if isinstance(m, Mod):
        prior = float(np.asarray(m.model.vocabPrior).ravel()[0])
    if k == "lda_vb":
        prior = float(np.float32(prior))
    return check_vb(ms, qs, led, Wq, prior, "python" in k)


def sweep_sampled(spec, its):
    """Whether a sampler's last sweep is one it keeps."""
    thin = spec["thin"] if spec.get("thin") is not None else 5
    return its % max(1, min(thin, its)) == 0


def session(plan, ops, counts):
    s = Session(plan)
    for i, spec in enumerate(plan["data"]):
        s.data[i] = make(spec)
    spec = plan["models"][0]
    mod = spec["kind"].startswith("mod:")
    led, out, hits, updates, kept, last_sweep = Ledger(plan["data"][0]["T"]), [], [], 0, None, False
    for i, op in enumerate(ops):
        f = None
        if op.get("fault"):
            if counts is None:
                f = seams.Fault(op["fault"]["kind"], 0)
            elif counts[i].get("count") and "ok" in counts[i]:
                f = seams.Fault(op["fault"]["kind"], at(op["fault"], counts[i]["count"]))
        s.model(0)
        W = s.ds(op["d"]).words.toarray().astype(np.int64)
        before = digest(state_of(s))
        r = s.do(op, f)
        e = {k: v for k, v in r.items() if k != "val"}
        if f is not None and counts is None:
            e["count"] = f.count
        if f is not None and f.fired:
            hits.append({"op": i, "kind": f.kind, "at": f.at, "n": f.n, "of": counts[i]["count"], "swallowed": "ok" in r})
        its = iters_of(op, spec)
        taught = op["op"] in ("fit", "fit_transform") and ("ok" in r or digest(state_of(s)) != before)
        if taught:
            led.add(W)
            updates += W.sum() * (its + 2) * (1 if op["op"] == "fit" else 2)
        if not mod:
            q = s.models[0].m.query_state_
            if "ok" in r and op["op"] != "score":
                kept = op["d"] if op.get("persist") else None
                last_sweep = sweep_sampled(dict(spec, **{k: op[k] for k in ("burn", "thin") if k in op}), its)
            s.kept = () if kept is None else (kept,)
            if (q is not None) != (kept is not None):
                s.kept = ()
        elif "ok" in r:
            last_sweep = op["op"] != "score" and sweep_sampled({}, its)
        s.last_sweep = last_sweep
        bad = check(s, plan, dict(op, d=op["d"] if mod or kept is None else kept), led, updates + W.sum() * (its + 2)) \
            if mod and "ok" in r or not mod else []
        if bad:
            e["bad"] = bad[:3]
            out.append(e)
            break
        out.append(e)
    return out, hits


def run(plan):
    st, viol = Stats(), []
    ops, kind = plan["ops"], plan["models"][0]["kind"]
    clean, _ = isolate(session, plan, ops, None)
    st.outcomes(ops, clean, plan)

    def judge(out, hits):
        for i, r in enumerate(out):
            if r.get("bad"):
                viol.append({"sig": "counts " + kind, "msg": "%s: after %s %s" % (
                    kind, show(ops[i]) + "".join(", failed by " + show_fault(h) for h in hits if h["op"] == i), "; ".join(r["bad"])),
                    "trace": trace(ops[:i + 1], hits)})
                return
    judge(clean, [])
    hits, out = [], []
    if not viol and any(o.get("fault") and c.get("count") and "ok" in c for o, c in zip(ops, clean)):
        try:
            out, hits = isolate(session, plan, ops, clean)
        except Crashed:
            if all(o["fault"]["kind"] != "alloc" for o in ops if o.get("fault")):
                raise
            st.count["processes lost to a failed allocation"] += 1
        count_faults(st, hits)
        judge(out, hits)
    st.count["states checked"] += sum("bad" not in r for r in clean + out)
    n = sum("ok" in r for r in clean)
    return report(plan, viol, st, digest([[r.get("ok") for r in clean], [(h["op"], h["kind"], h["n"]) for h in hits]]) if n > 1 else None,
                  {"models": plan["models"], "data": plan["data"], "ops": trace(ops, hits)})


gen_only, gen_run, run = entry(gen, run)
