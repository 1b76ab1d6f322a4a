"""P10: a failed fold neither corrupts nor counts in a cross-validated evaluation.

The real runner evaluates a real model module through a proxy which gives each
step of each fold its own random draws, records the values that passed, and
fails the planned steps; the disk and the clock are simulated.  What the runner
reports and leaves behind is compared with the records of the folds that
completed, and those folds with the undisturbed run."""
import contextlib
import io
import os
import pickle
import re
import shutil
import tempfile
import time

from .faulty import *
from ..world import DataSet
from sidetopics.run import __main__ as runner

MODS = ("mod:lda_cvb", "mod:lda_vb", "mod:lda_vb_python", "mod:lda_gibbs", "mod:ctm", "mod:ctm_bohning",
        "mod:stm_yv", "mod:stm_yv_bohning")
TAGGED = ("mod:ctm", "mod:ctm_bohning", "mod:stm_yv", "mod:stm_yv_bohning")
STEPS = ("split", "newModelFromExisting", "newQueryState", "train", "train", "log_likelihood",
         "completion", "newQueryState#2", "query", "log_likelihood#2")
TAG_STEPS = ("split", "newModelFromExisting", "newQueryState", "train", "train", "newQueryState#2", "query")


def gen(rng, tier):
    tags = rng.random() < .2
    kind = rng.choice(TAGGED if tags else MODS)
    plan = {"models": [draw_model(rng, (kind,), tier)],
            "data": [{"D": rng.randint(6, 16), "T": rng.randint(10, 40), "seed": draw_seed(rng),
                      "rate": rng.choice([.3, 1.0, 1.0, 2.0]), "dtype": "f8"}]}
    fix_data_for(plan)
    plan["models"][0]["K"] = min(plan["models"][0]["K"], 4)
    folds = 1 if not tags and rng.random() < .12 else rng.randint(2, 5)
    plan.update(folds=folds, limit=rng.choice([-1, -1, rng.randint(1, folds), 1]), save=rng.random() < .6,
                iters=rng.randint(1, 5), qiters=rng.randint(1, 4), tags=rng.choice([.5, 1.0]) if tags else None,
                seed=draw_seed(rng), clock=[rng.choice([0, 1, 59, 61, 3600, -3600]) for _ in range(6)])
    faults = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3])):
        f = {"fold": rng.randrange(folds), "step": rng.choice(TAG_STEPS if tags else STEPS),
             "how": rng.choice(["before", "after", "memory", "alloc", "lib"]), "frac": round(rng.random(), 4)}
        if not any((g["fold"], g["step"]) == (f["fold"], f["step"]) for g in faults):
            faults.append(f)
    if plan["save"] and rng.random() < .4:
        faults.append({"disk": rng.choice(["eio", "full", "short"]), "frac": round(rng.random(), 4)})
    plan["faults"] = faults
    return plan


class Disk(seams.SimDisk):
    """Notes in which fold the planned fault struck."""
    folds = ()

    def tick(self, *a):
        r = super().tick(*a)
        if r:
            self.folds += (self.recorder.fold,)
        return r


class Recorder:
    """Stands for the model module, and for the dataset's splits."""

    def __init__(self, plan, mdl, out, counts=None):
        self.plan, self.mdl, self.out, self.counts = plan, mdl, out, counts
        self.fold, self.seen = None, collections.Counter()
        self.log, self.found, self.failed, self.absorbed = [], {}, {}, False
        self.folds = []
        self.marks = []

    def __getattr__(self, name):
        real = getattr(self.mdl, name)
        if name not in ("newModelFromExisting", "newQueryState", "train", "query", "log_likelihood"):
            return real
        return lambda *a, **k: self.step(name, real, *a, **k)

    def start(self, fold):
        self.fold = fold
        self.folds.append(fold)
        self.seen.clear()
        self.marks.append((fold, self.out.tell()))

    def step(self, name, real, *a, **k):
        self.seen[name] += 1
        key = name + ("#%d" % self.seen[name] if self.seen[name] > 1 else "")
        seams.seed_all(int(digest([self.plan["seed"], self.fold, key])[:7], 16))
        f = next((f for f in self.plan["faults"] if f.get("step") == key and f["fold"] == self.fold), None)
        how = f["how"] if f else None
        try:
            fault = None
            if self.counts is not None and how == "before":
                self.hit(f, "a failure before " + key)
                raise RuntimeError("simulated failure of " + key)
            if how in ("memory", "alloc", "lib"):
                n = (self.counts or {}).get((self.fold, key), 0)
                fault = seams.Fault(how, at(f, n) if self.counts is not None and n else 0, where=lambda f: True)
                with fault:
                    r = real(*a, **k)
                if self.counts is None:
                    self.found[(self.fold, key)] = fault.count
                elif fault.fired:
                    self.absorbed = True
            else:
                r = real(*a, **k)
            if self.counts is not None and how == "after":
                self.hit(f, "a failure after " + key)
                raise RuntimeError("simulated failure of " + key)
        except Exception:
            if fault is not None and fault.fired:
                self.hit(f, "%s in %s at %s" % (how, key, fault.at))
            self.failed.setdefault(self.fold, key)
            raise
        rec = {"fold": self.fold, "step": key}
        if name == "log_likelihood":
            rec.update(value=float(np.sum(r)), words=float(a[0].word_count))
        elif name == "train":
            rec.update(model=digest(r[0]))
        elif name == "newModelFromExisting":
            rec.update(template=digest(a[0]))
        self.log.append(rec)
        return r

    def hit(self, f, what):
        self.hits = getattr(self, "hits", []) + [(self.fold, f["how"], what)]

    def get(self, fold, step):
        return next((r for r in self.log if r["fold"] == fold and r["step"] == step), None)


class Clock:
    def __init__(self, steps):
        self.now, self.steps, self.i, self.moved = 1.4e9, steps, 0, 0.0

    def tick(self):
        d = self.steps[self.i % len(self.steps)]
        self.i += 1
        self.now += d
        self.moved += abs(d)
        return self.now

    def __enter__(self):
        self.saved = time.gmtime, time.time, time.localtime
        g, l = time.gmtime, time.localtime
        time.gmtime = lambda s=None: g(self.tick() if s is None else s)
        time.localtime = lambda s=None: l(self.tick() if s is None else s)
        time.time = self.tick
        return self

    def __exit__(self, *exc):
        time.gmtime, time.time, time.localtime = self.saved


@contextlib.contextmanager
def splits_through(rec):
    real, completion = DataSet.cross_valid_split, DataSet.doc_completion_split

    def split(self, fold, *a, **k):
        rec.start(fold)
        return rec.step("split", real, self, fold, *a, **k)
    DataSet.cross_valid_split = split
    DataSet.doc_completion_split = lambda self, *a, **k: rec.step("completion", completion, self, *a, **k)
    try:
        yield
    finally:
        DataSet.cross_valid_split, DataSet.doc_completion_split = real, completion


def evaluate(plan, counts=None, disk_ops=0, faulty=False):
    root = tempfile.mkdtemp(prefix="p10-")
    out = io.StringIO()
    try:
        s = Session(plan)
        m, data = s.model(0), s.ds(0)
        rec = Recorder(plan, m.mdl, out, counts if faulty else None)
        if not faulty:
            rec.counts = None
        df = next((f for f in plan["faults"] if f.get("disk")), None)
        disk = Disk(root, {"kind": df["disk"], "n": at(df, disk_ops)} if faulty and df and disk_ops else None)
        disk.recorder = rec
        clock = Clock(plan["clock"])
        before = digest([data, m.model])
        template = digest(m.model)
        limit = plan["limit"] if faulty else -1
        args = (rec, m.model, m.plan(plan["iters"]))
        files, err = None, None
        seams.simalloc.set_pattern(1, 5)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()), clock, \
                seams.DiskSeam(disk), splits_through(rec):
            try:
                if plan["tags"]:
                    tags = list(range(min(4, data.words.shape[1])))
                    files = runner.cross_val_and_eval_hashtag_prec_at_m(
                        data, tags, plan["tags"], *args, ["w%d" % i for i in range(data.words.shape[1])],
                        plan["folds"], limit, root if plan["save"] else None)
                else:
                    files = runner.cross_val_and_eval_perplexity(data, *args, m.plan(plan["qiters"]), plan["folds"],
                                                                 limit, root if plan["save"] else None)
            except Exception as e:
                err = "%s: %s" % (type(e).__name__, str(e)[:100])
        saved, broken = {}, []
        for name in sorted(os.listdir(root)):
            if name.endswith(".part"):
                continue
            try:
                with open(os.path.join(root, name), "rb") as f:
                    saved[name] = digest(pickle.load(f)[4])
            except Exception as e:
                broken.append("%s (%s)" % (name, type(e).__name__))
        text = out.getvalue()
        marks = rec.marks + [(None, len(text))]
        parts = {f: [l for l in text[p:q].splitlines() if re.match(r"\s*(Fold \d|Precision|Recall)", l)]
                 for (f, p), (_, q) in zip(marks, marks[1:])}
        return {"files": None if files is None else [os.path.basename(f) for f in files], "err": err, "saved": saved,
                "broken": broken, "text": text, "parts": parts, "log": rec.log, "failed": rec.failed, "found": rec.found,
                "hits": getattr(rec, "hits", []), "absorbed": rec.absorbed, "folds": rec.folds,
                "abandoned": sorted({int(x) for x in re.findall(r"Abandoning fold (\d+)", text)}),
                "same": digest([data, m.model]) == before, "template": template,
                "templates": [r["template"] for r in rec.log if "template" in r],
                "disk_ops": len(disk.ops), "disk_fired": disk.fired, "disk_folds": disk.folds, "moved": clock.moved}
    finally:
        shutil.rmtree(root, ignore_errors=True)


def run(plan):
    st, viol = Stats(), []
    kind = plan["models"][0]["kind"]
    clean = isolate(evaluate, plan)
    r = isolate(evaluate, plan, clean["found"], clean["disk_ops"], True)
    hits = list(r["hits"])
    if r["disk_fired"]:
        hits.append((r["disk_folds"][0], r["disk_fired"][0], "disk: %s during %s" % r["disk_fired"][:2]))
    for h in hits:
        st.faults[h[1]] += 1
        st.sets["fault points"].add(re.sub("#.*", "", h[2]))
    st.count["folds started"] += len(r["folds"])
    st.count["folds which failed"] += len(r["abandoned"])
    head = "%s, %d folds%s" % (kind, plan["folds"], ", hashtags" if plan["tags"] else "")
    trace = ["limit %s, saving %s" % (plan["limit"], plan["save"])] + ["fold %s: %s" % (h[0], h[2]) for h in hits] + \
        ["abandoned: %s, returned %s, saved %s" % (r["abandoned"], r["files"], sorted(r["saved"]))]

    def bad(sig, msg):
        viol.append({"sig": sig, "msg": "%s: %s" % (head, msg), "trace": trace})

    res = {"viol": viol}
    if not r["same"]:
        bad("template-or-data-changed", "the run changed the %s it was given" % (
            "template model" if any(t != r["template"] for t in r["templates"]) else "template model or dataset"))
    if any(t != r["template"] for t in r["templates"]):
        bad("fold-from-changed-template", "a fold started from a template which is not the given one")
    if r["broken"]:
        bad("broken-file", "a saved file cannot be loaded: %s" % r["broken"])
    if r["absorbed"]:
        st.count["faults the code absorbed"] += 1
        return report(plan, viol, st)
    if plan["folds"] == 1:
        if hits and r["err"] is None and any(h[1] != "short" for h in hits):
            bad("failure-hidden", "the only fold failed, yet the run reported success")
        if not hits and r["err"] != clean["err"]:
            bad("single-fold", "failed with %s" % r["err"])
        if r["err"] is None and sorted(r["files"]) != sorted(r["saved"]):
            bad("file-list", "returned %s but saved %s" % (r["files"], sorted(r["saved"])))
        if r["err"] is not None and r["saved"]:
            bad("file-of-failed-fold", "the fold failed but left %s" % sorted(r["saved"]))
    else:
        if r["err"] is not None:
            bad("run-stopped", "a failing fold stopped the run: %s" % r["err"])
            return report(plan, viol, st)
        # which folds ought to complete
        limit = plan["limit"] if plan["limit"] >= 1 else plan["folds"]
        failing = set(r["failed"]) | (set(clean["abandoned"]) - {None})
        failing |= set(r["disk_folds"]) & set(r["abandoned"])
        done, visited = [], []
        for f in range(plan["folds"]):
            if len(done) == limit:
                break
            visited.append(f)
            if f not in failing:
                done.append(f)
        if r["folds"] != visited:
            bad("folds-run", "folds %s were run, but %s completed folds were asked for, and %s had to be run for that" % (
                r["folds"], limit, visited))
        for f in visited:
            if f in failing:
                continue
            for step in ("log_likelihood", "log_likelihood#2", "train"):
                a, b = [next((x for x in q["log"] if x["fold"] == f and x["step"] == step), None) for q in (clean, r)]
                if a != b and digest(a) != digest(b):
                    bad("other-fold-affected", "fold %d, which did not fail, gave %s at %s, but %s when no fold fails" % (f, b, step, a))
                    break
            if clean["parts"].get(f) != r["parts"].get(f):
                bad("other-fold-affected", "fold %d, which did not fail, reported %s, but %s when no fold fails" % (
                    f, r["parts"].get(f), clean["parts"].get(f)))
        if plan["save"]:
            want = [next(x["model"] for x in r["log"] if x["fold"] == f and x["step"] == "train") for f in done if not viol]
            if not viol and sorted(r["files"]) != sorted(r["saved"]):
                bad("file-list", "returned %s but %s are there; folds %s completed" % (r["files"], sorted(r["saved"]), done))
            elif not viol and [r["saved"][f] for f in r["files"]] != want:
                bad("file-list", "returned %s, which are not the models of the completed folds %s" % (r["files"], done))
        elif not viol and (r["files"] or r["saved"]):
            bad("file-list", "returned %s and saved %s without being asked to save" % (r["files"], sorted(r["saved"])))
        if not plan["tags"] and not viol:
            totals(plan, r, done, bad)
    nontrivial = digest([[x.get("value") for x in r["log"]], [h for h in hits]]) if hits and r["log"] else None
    out = report(plan, viol, st, nontrivial, {"model": plan["models"][0], "data": plan["data"], "run": trace})
    out["stats"]["sim_seconds"] = r["moved"] + clean["moved"]
    return out


def totals(plan, r, done, bad):
    lines = dict()
    for what, n in re.findall(r"Total \((\d+)\): (.*)", r["text"]):
        lines.setdefault(n.split("-")[0], (int(what), n))
    if not done:
        if any(w for w, _ in lines.values()):
            bad("totals", "no fold completed, but totals were printed: %s" % lines)
        return
    for name, step in (("Train", "log_likelihood"), ("Query", "log_likelihood#2")):
        recs = [next(x for x in r["log"] if x["fold"] == f and x["step"] == step) for f in done]
        like, words = sum(x["value"] for x in recs), sum(x["words"] for x in recs)
        got = lines.get(name)
        if got is None:
            return bad("totals", "no %s totals although folds %s completed" % (name, done))
        if got[0] != len(done):
            return bad("totals", "the totals claim to cover %d folds, but folds %s completed" % (got[0], done))
        nums = [float(x) for x in re.findall(r":\s+(-?[\d.]+(?:e[+-]?\d+)?|-?inf|nan)", got[1])]
        if len(nums) != 2 or not np.isfinite(like):
            continue
        perp = np.exp(-like / words)
        for what, want, have in (("likelihood", like, nums[0]), ("perplexity", perp, nums[1])):
            if np.isfinite(want) and abs(want - have) > 2e-3 + 1e-5 * abs(want):
                return bad("totals", "%s %s reported as %s, but that of the completed folds %s is %s" % (name, what, have, done, want))


gen_only, gen_run, run = entry(gen, run)
