"""P21: an evaluation run depends on its command line and input files alone.

The real command-line entry point is run start to end - files, pruning,
shuffling, model, folds, printed results, saved models - in a process in which
other runs were made before, some of them failing at a planned point, with
other memory contents and another clock; and once, alone, in a fresh
interpreter with another hash seed.  Both must print the same results and save
the same models."""
import contextlib
import io
import os
import pickle
import re
import shutil
import tempfile

import numpy.random
import scipy.sparse as ssp

from .faulty import *
from .p10 import Clock
from .. import zygote
from sidetopics.run import __main__ as runner

PERPLEXITY = ("lda_cvb", "lda_vb", "lda_svb", "lda_gibbs", "lda_gibbs", "ctm_bouchard", "ctm_bohning", "stm_yv_bouchard",
              "stm_yv_bohning", "sim_lda_vb", "lro_vb")
TAGS = ("ctm_bohning", "stm_yv_bohning")
LINKS = ("mtm2_vb", "sim_lda_vb", "lro_vb")


def draw_cmd(rng):
    r = rng.random()
    if r < .7:
        model, what = rng.choice(PERPLEXITY), "perplexity"
    elif r < .88:
        model, what = rng.choice(TAGS), "tag_prec_at_m"
    else:
        model, what = rng.choice(LINKS), "lro_meanprecrec_all"
    if model == "lro_vb" and rng.random() < .7:
        model = "sim_lda_vb"
    folds = rng.choice([1, 2, 2, 3]) if what == "perplexity" else rng.randint(2, 3)
    return {"model": model, "eval": what, "K": rng.randint(2, 5), "P": rng.randint(1, 3), "iters": rng.randint(1, 6),
            "qiters": rng.randint(1, 4), "folds": folds, "limit": rng.choice([-1, rng.randint(1, folds)]) if what == "perplexity" else rng.randint(1, folds),
            "save": rng.random() < .6, "feats": model.startswith("stm") or rng.random() < .4,
            "links": what.startswith("lro") or model in ("lro_vb", "sim_lda_vb") or rng.random() < .3,
            "rows": rng.choice([0, 0, 0, 9]), "tags": "%d:%d,%s" % (rng.randint(0, 3), rng.choice([-1, 8]), rng.choice(["0.333", "0.7", "1.0"])),
            "poison": rng.choice(POISONS)}


def gen(rng, tier):
    plan = {"models": [], "data": [{"D": rng.randint(10, 24), "T": rng.randint(12, 40), "seed": draw_seed(rng),
                                    "rate": rng.choice([.6, 1.0, 2.0])}],
            "clock": [rng.choice([0, 1, 59, 3600, -3600]) for _ in range(5)]}
    cmds = [draw_cmd(rng) for _ in range(rng.randint(1, 2))]
    ops = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        op = dict(rng.choice(cmds)) if rng.random() < .7 else draw_cmd(rng)
        op["poison"] = rng.choice(POISONS)
        if rng.random() < .5:
            op["fault"] = draw_fault(rng) if rng.random() < .75 else {"kind": rng.choice(["eio", "full", "short"]), "frac": round(rng.random(), 4)}
        ops.append(op)
    if rng.random() < .5:
        ops.insert(rng.randint(0, len(ops)), {"draws": draw_seed(rng)})
    ops.append(dict(cmds[0], poison=rng.choice(POISONS)))
    plan["ops"] = ops
    return plan


def files(root, spec):
    """The input files."""
    r = numpy.random.RandomState(spec["seed"])
    D, T = spec["D"], spec["T"]
    W = r.poisson(spec["rate"] * r.gamma(1.0, 1.0, (1, T)), (D, T))
    W[:, :4] += r.randint(0, 2, (D, 4))
    W[:, 0] += 1
    out = {"w": ssp.csr_matrix(W.astype(float)), "x": ssp.csr_matrix((r.rand(D, 4) < .4).astype(float)),
           "l": ssp.csr_matrix((r.rand(D, D) < .5).astype(float)),
           "d": ["%sw%d" % ("#" if i % 3 == 0 else "", i) for i in range(T)]}
    for n, v in out.items():
        with open(os.path.join(root, n), "wb") as f:
            pickle.dump(v, f)


def argv(op, root, out):
    a = ["-m", op["model"], "-k", op["K"], "-q", 2, "-p", op["P"], "-w", root + "/w", "-i", op["iters"], "-j", op["qiters"],
         "-v", op["eval"], "-f", op["folds"], "--truncate-folds", op["limit"], "-t", "f8:f8"]
    if op["eval"] == "tag_prec_at_m":
        a += ["--word-dict", root + "/d", "--tag-recall-opts", op["tags"]]
    if op["feats"]:
        a += ["-x", root + "/x"]
    if op["links"]:
        a += ["-c", root + "/l"]
    if op["rows"]:
        a += ["--limit-to", op["rows"]]
    if op["save"]:
        a += ["-o", out]
    return [str(x) for x in a]


def once(op, root, clock, fault=None, disk=None):
    """One evaluation: what it printed and saved."""
    out = tempfile.mkdtemp(prefix="out-", dir=root)
    text = io.StringIO()
    seams.simalloc.set_pattern(op.get("poison", 1), 5)
    r = {}
    try:
        with contextlib.redirect_stdout(text), contextlib.redirect_stderr(io.StringIO()), clock, \
                (seams.DiskSeam(disk) if disk is not None else contextlib.nullcontext()):
            try:
                with fault or contextlib.nullcontext():
                    names = runner.run(argv(op, root, out))
                r["ok"] = len(names or ())
            except (Exception, SystemExit, seams.SimInterrupt) as e:
                r["err"], r["msg"] = type(e).__name__, str(e)[:100].replace(root, "")
        t = text.getvalue()
        r["text"] = re.sub(r"\d{8}_\d{4}|\d\d:\d\d:\d\d", "WHEN", t.replace(out, "OUT").replace(root, "IN"))
        r["saved"] = {}
        for n in sorted(os.listdir(out)):
            with open(os.path.join(out, n), "rb") as f:
                try:
                    r["saved"][re.sub(r"\d{8}_\d{4}", "WHEN", n)] = digest(pickle.load(f))
                except (EOFError, pickle.UnpicklingError):
                    r["saved"][n] = "broken"
    finally:
        shutil.rmtree(out, ignore_errors=True)
    return r


def contents(root):
    return {n: open(os.path.join(root, n), "rb").read() for n in "wxld"}


def session(plan, alone=False, counts=None):
    """The planned runs, or the last alone.  Without counts, only counts the
    opportunities for the planned faults, each run in a process of its own."""
    root = tempfile.mkdtemp(prefix="p21-")
    try:
        files(root, plan["data"][0])
        before = contents(root)
        clock = Clock(plan["clock"])
        out = []
        ops = plan["ops"][-1:] if alone else plan["ops"]
        for i, op in enumerate(ops):
            if "draws" in op:
                seams.seed_all(op["draws"])
                numpy.random.rand(op["draws"] % 97)
                out.append({"ok": 0})
                continue
            f, fault, disk = op.get("fault"), None, None
            if f and counts[i]:
                if f["kind"] in ("eio", "full", "short"):
                    disk = seams.SimDisk(root, {"kind": f["kind"], "n": at(f, counts[i])})
                else:
                    fault = seams.Fault(f["kind"], at(f, counts[i]))
            r = once(op, root, clock, fault, disk)
            r["fired"] = (fault.fired and (fault.kind, fault.at)) if fault else (disk.fired and (disk.fired[0], "disk: %s of %s" % disk.fired[1:])) if disk else None
            out.append(r)
        return {"out": out, "same": contents(root) == before, "moved": clock.moved}
    finally:
        shutil.rmtree(root, ignore_errors=True)


def count_of(plan, i):
    """How many opportunities the fault of the i-th run has."""
    op = plan["ops"][i]
    f = op["fault"]
    root = tempfile.mkdtemp(prefix="p21-")
    try:
        files(root, plan["data"][0])
        fault, disk = None, None
        if f["kind"] in ("eio", "full", "short"):
            disk = seams.SimDisk(root)
        else:
            fault = seams.Fault(f["kind"], 0)
        once(op, root, Clock(plan["clock"]), fault, disk)
        return len(disk.ops) if disk else fault.count
    finally:
        shutil.rmtree(root, ignore_errors=True)


def tables(text):
    """The tables printed, in order: {group: (documents, [values])}."""
    out, cur = [], None
    for l in text.splitlines():
        if l.startswith("| Group"):
            cur = {}
            out.append(cur)
        elif l.startswith("|") and cur is not None and not l.startswith("|--"):
            c = [x.strip() for x in l.strip("| ").split("|")]
            cur[c[0]] = (int(c[1]), [float(x) for x in c[2:]])
        elif not l.startswith("|"):
            cur = None
    return out


def combined(text):
    """What is wrong with the final tables, the folds' tables given."""
    ts = tables(text)
    if len(ts) < 4 or len(ts) % 2:
        return None
    final = ts[-2:]
    for j in range(2):
        folds = ts[j:-2:2]
        for g, (n, vals) in final[j].items():
            parts = [t[g] for t in folds if g in t]
            if n != sum(p[0] for p in parts):
                return "group %s counts %d documents, the folds %s" % (g, n, [p[0] for p in parts])
            for k, v in enumerate(vals):
                want = sum(p[0] * p[1][k] for p in parts) / n if n else 0
                if not abs(v - want) < 2e-3:
                    return "group %s reports %s, but the folds' average is %.3f" % (g, v, want)
    return None


def averages(text):
    """What is wrong with the final averages: each lies among those of the folds."""
    for name in ("Mean reciprocal-rank", "Mean Average Precision"):
        folds = [float(v) for v in re.findall("^" + name + r" : (\S+)$", text, re.M)]
        last = re.findall("^" + name.replace(" Average P", " average-p") + r": (\S+)$", text, re.M)
        if folds and last and all(v == v for v in folds):
            if not min(folds) - 2e-6 <= float(last[-1]) <= max(folds) + 2e-6:
                return "the final %s is %s, those of the folds are %s" % (name.lower(), last[-1], folds)
    return None


def run(plan):
    st, viol = Stats(), []
    ops = plan["ops"]
    if "model" not in ops[-1] or ops[-1].get("fault"):
        raise Invalid
    counts = [isolate(count_of, plan, i) if op.get("fault") else None for i, op in enumerate(ops)]
    r = isolate(session, plan, False, counts)
    alone = zygote.peer.call("vsim.props.p21", "session", plan, True) if zygote.peer else isolate(session, plan, True)
    label = lambda op: "draws" if "draws" in op else "%s %s K=%d folds=%d%s" % (op["model"], op["eval"], op["K"], op["folds"], " saved" if op["save"] else "")
    trace = []
    for op, x in zip(ops, r["out"]):
        trace.append(label(op) + (" <- %s at %s" % x["fired"] if x.get("fired") else "") + (" (%s)" % x["err"] if "err" in x else ""))
        if x.get("fired"):
            st.faults[x["fired"][0]] += 1
            st.sets["fault points"].add(str(x["fired"][1]))
        if "model" in op:
            st.count["evaluations"] += 1
            st.count["evaluations " + op["eval"]] += 1
            st.sets["models evaluated"].add(op["model"] + " " + op["eval"])
            if "err" in x:
                st.sets["errors seen"].add("%s %s: %s" % (label(op), x["err"], x["msg"]))

    def bad(sig, msg):
        viol.append({"sig": sig, "msg": "%s: %s" % (label(ops[-1]), msg), "trace": trace})

    if not r["same"] or not alone["same"]:
        bad("input-changed", "an evaluation changed its input files")
    a, b = r["out"][-1], alone["out"][-1]
    if a.get("err") != b.get("err"):
        bad("other-outcome", "%s, but alone in a fresh interpreter %s" % (a.get("err", "completed"), b.get("err", "completed")))
    elif a["text"] != b["text"]:
        x, y = next(((x, y) for x, y in zip(a["text"].splitlines(), b["text"].splitlines()) if x != y), ("(the end)", "(the end)"))
        bad("other-results", "printed %r, but alone in a fresh interpreter %r" % (x[:150], y[:150]))
    elif a["saved"] != b["saved"]:
        bad("other-models", "saved other models than alone in a fresh interpreter: %s" % sorted(
            n for n in set(a["saved"]) | set(b["saved"]) if a["saved"].get(n) != b["saved"].get(n)))
    if not viol and "ok" in b:
        c = combined(b["text"]) or averages(b["text"])
        if c:
            bad("combined-results", c)
        st.count["combined tables compared"] += 1 if len(tables(b["text"])) >= 4 else 0
    if not viol and "ok" not in b:
        bad("run-stopped %s" % b["err"], "stopped with %s: %s" % (b["err"], b["msg"]))
    nontriv = digest([a["text"], a["saved"], trace]) if "ok" in a and len(ops) > 1 else None
    out = report(plan, viol, st, nontriv, {"runs": trace, "data": plan["data"]})
    out["stats"]["sim_seconds"] = r["moved"] + alone["moved"]
    return out


gen_only, gen_run, run = entry(gen, run)
