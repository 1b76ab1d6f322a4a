"""P22: the side tools write whole files which say what their inputs say, or
leave the files alone.

A history of runs of the report generator, the converters of text matrices and
of printed results and the citation metadata tools over one directory, on a
simulated disk which fails, fills up, writes short, stops with the machine and
lists directories in any order, under interrupts and inputs cut short.  An
executable reference says what each output must hold."""
import contextlib
import io
import os
import pickle
import random
import shutil
import tempfile

import scipy.sparse as ssp

from .faulty import *
from .p10 import Clock
from sidetopics.run import __main__ as runner
from sidetopics.run import arxiv_author_ids, arxiv_to_aan, report_generator, reshape_results, text_to_numpy

BOUNDS = ("bouchard", "bohning")
MS = [10, 20, 30, 40, 50, 75, 100, 150, 250, 500]
GROUPS = [(-1, -1), (0, 3), (3, 5), (5, 10), (10, 1000)]
LABELS = ["0->", "0->3", "3->5", "5->10", "10->"]
TEMPLATE = """HEAD %s
bound=$bound
codePath=$codePath
outputPathPrefix=$outFilesPrefix
outputFiles=[ $outputFiles ]
implName=$implName
price=$$5
TAIL %s"""
TEMPLATES = ("CtmResultsSheet-Template.ipynb", "StmResultsSheet-Template.ipynb", "StmResultsSheet-Nips-Template.ipynb")
EXTRAS = ("article_nocode.tplx", "convert-to-pdf.sh")
ALL_OPS = ("open", "read", "write", "fsync", "rename", "remove")
STRIKES = {"eio": ALL_OPS, "crash": ALL_OPS, "full": ("open", "write", "fsync", "rename"), "short": ("read", "write")}
NAMES = ["Ada", "Bo", "Cy", "Dee", "Eli", "Fay", "Gus", "Hal", "Ivy", "Jo"]
LAST = ["Ames", "Byrd", "Cole", "Dunn", "Eads", "Ford", "Gray", "Hood", "Ives", "Jett"]


def gen(rng, tier):
    ops = []
    for i in range(rng.randint(2, 9)):
        r = rng.random()
        if r < .3:
            op = {"op": "folds", "n": rng.randint(1, 4), "seed": draw_seed(rng)}
        elif r < .62:
            op = {"op": "report", "model": rng.choice(["ctm", "ctm_bouchard", "ctm_bohning", "stm_yv", "stm_yv_bouchard", "stm_yv_bohning"]),
                  "ks": rng.choice([[5], [5, 50], [2, 5, 50]]), "ps": rng.choice([[0], [3], [3, 30]]),
                  "nips": rng.random() < .3, "via": rng.random() < .5}
        elif r < .8:
            op = {"op": "matrix", "rows": rng.choice([rng.randint(1, 6), rng.randint(1, 6), rng.randint(30, 200)]), "cols": rng.randint(1, 12),
                  "float": rng.random() < .5, "sparse": rng.random() < .4, "seed": draw_seed(rng), "which": rng.randrange(2)}
            if rng.random() < .35:
                op["damage"] = {"how": rng.choice(["cut", "more", "fewer", "word", "short line", "long line"]), "frac": round(rng.random(), 4)}
        elif r < .9:
            op = {"op": "results", "n": rng.randint(1, 3), "seed": draw_seed(rng)}
        elif r < .95:
            op = {"op": "paper", "seed": draw_seed(rng)}
        else:
            op = {"op": "authors", "seed": draw_seed(rng), "n": rng.choice([2, 40, 400])}
        if op["op"] != "folds":
            op["listing"] = draw_seed(rng)
            r = rng.random()
            if r < .3:
                op["fault"] = {"kind": rng.choice(["eio", "full", "short"]), "frac": round(rng.random(), 4)}
            elif r < .45:
                op["fault"] = {"kind": "crash", "frac": round(rng.random(), 4)}
            elif r < .55:
                op["fault"] = {"kind": rng.choice(["interrupt", "memory"]), "frac": round(rng.random(), 4)}
            elif r < .65:
                op["power"] = True
            if op.get("fault") and rng.random() < .5:  # and again, with nothing wrong
                ops.append(op)
                op = {k: v for k, v in op.items() if k != "fault"}
        ops.append(op)
    return {"ops": ops, "models": [], "data": [], "seed": draw_seed(rng), "filler": rng.choice([1, 1, 700, 3000]),
            "clock": [rng.choice([0, 1, 59, 61]) for _ in range(5)]}


class World:
    """The directory, and what the reference knows of it."""

    def __init__(self, plan, root):
        self.root, self.plan = root, plan
        self.out, self.rep, self.tpl, self.conv = (os.path.join(root, d) for d in ("out", "reports", "templates", "conv"))
        self.folds = {}    # (model, bound, K, P) -> {fold: file name}
        filler = "x" * 79 + "\n"
        self.extra = {}
        for d in (self.out, self.rep, self.tpl, self.conv):
            os.makedirs(d, exist_ok=True)
        for t in TEMPLATES:
            with open(os.path.join(self.tpl, t), "w") as f:
                f.write(TEMPLATE % (t + "\n" + filler * plan["filler"], filler * plan["filler"] + t))
        for e in EXTRAS:
            self.extra[e] = ("%s\n" % e + filler * plan["filler"]).encode()
            with open(os.path.join(self.tpl, e), "wb") as f:
                f.write(self.extra[e])
            os.chmod(os.path.join(self.tpl, e), 0o755 if e.endswith(".sh") else 0o644)

    # ------------------------------------------------------------- inputs
    def save_folds(self, op, clock):
        rng = random.Random(op["seed"])
        made = []
        for _ in range(op["n"]):
            model, bound = rng.choice(["ctm", "stm_yv"]), rng.choice(BOUNDS)
            K, P = rng.choice([2, 5, 5, 50]), 0 if model == "ctm" else rng.choice([0, 3, 3, 30])
            for fold in rng.sample(range(12), rng.choice([1, 2, 5, 12])):
                mine = self.folds.setdefault((model, bound, K, P), {})
                if fold in mine:
                    continue
                with clock:
                    path = runner.newModelFile("%s/%s" % (model.replace("_", "-"), bound), K, P, fold, self.out)
                clutter = rng.random()
                open(path + (".part" if clutter < .12 else ""), "wb").close()
                if clutter >= .12:
                    mine[fold] = os.path.basename(path)
                made.append(os.path.basename(path) + (".part" if clutter < .12 else ""))
        for other in rng.sample(["lda_vb_k_5_p_0_fold_0_20140101_0000.pkl", "old_ctm_bohning_k_5_p_0_fold_0_20140101_0000.pkl",
                                 "notes.txt"], rng.randint(0, 2)):
            open(os.path.join(self.out, other), "wb").close()
        return made

    # ------------------------------------------- one run of a tool: (call, {output: judge})
    def report(self, op):
        model = "ctm" if op["model"].startswith("ctm") else "stm_yv"
        bounds = [b for b in BOUNDS if op["model"].endswith(b)] or list(BOUNDS)
        want, counts = {}, {}
        for b in bounds:
            for K in op["ks"]:
                for P in ([0] if model == "ctm" else op["ps"]):
                    folds = self.folds.get((model, b, K, P), {})
                    name = "ctm_%s_k_%d.ipynb" % (b, K) if model == "ctm" else "stm_yv_%s_k_%d_p_%d.ipynb" % (b, K, P)
                    path = os.path.join(self.rep, name)
                    counts[path] = len(folds)
                    if folds:
                        t = TEMPLATES[0] if model == "ctm" else TEMPLATES[2 if op["nips"] else 1]
                        want[path] = self.whole_report(t, b, model, [folds[k] for k in sorted(folds)])
        for e in EXTRAS:
            want[os.path.join(self.rep, e)] = self.whole_extra(e)

        def call():
            if op["via"]:
                args = ["-m", op["model"], "-k", ",".join(map(str, op["ks"])), "-i", self.out, "-o", self.rep, "-t", self.tpl]
                if model != "ctm":
                    args += ["-q", ",".join(map(str, op["ps"])), "-d", "nips" if op["nips"] else "tweets"]
                report_generator.run(args)
                return None
            if model == "ctm":
                return report_generator.generate_reports_ctm(bounds, op["ks"], self.out, self.rep, self.tpl)
            return report_generator.generate_reports_stm_yv(bounds, op["ks"], op["ps"], self.out, self.rep, self.tpl,
                                                            "nips" if op["nips"] else "tweets")

        def returned(r):
            if r is not None and dict(r) != counts:
                return "reported %s folds per report, not %s" % ({os.path.basename(k): v for k, v in r.items()},
                                                                {os.path.basename(k): v for k, v in counts.items()})
        return call, want, returned, None

    def whole_report(self, template, bound, model, files):
        with open(os.path.join(self.tpl, template)) as f:
            lines = f.read().split("\n")
        impl = {"ctm": {"bouchard": "ctm", "bohning": "ctm_bohning"},
                "stm_yv": {"bouchard": "stm_yv", "bohning": "stm_yv_bohning"}}[model][bound]

        def judge(content):
            got = content.decode().split("\n")
            if len(got) != len(lines):
                return "has %d lines, its template %d" % (len(got), len(lines))
            env = {}
            for g, w in zip(got, lines):
                if "$" not in w:
                    if g != w:
                        return "does not carry its template over"
                    continue
                key = w.split("=")[0]
                g = g[len(key) + 1:]
                if key in ("bound", "implName"):
                    if g != {"bound": bound.capitalize(), "implName": impl}[key]:
                        return "says %s=%s" % (key, g)
                elif key == "price":
                    if g != "$5":
                        return "turned an escaped $ into %s" % g
                else:
                    env[key] = eval(g, {}, env)
            want = [os.path.join(self.out, f) for f in files]
            have = [os.path.normpath(f) for f in env["outputFiles"]]
            if sorted(have) != sorted(want):
                return "lists the folds %s, but those saved are %s" % ([os.path.basename(f) for f in have], files)
            if have != want:
                return "lists its folds in the order %s" % [os.path.basename(f) for f in have]
        return judge

    def whole_extra(self, e):
        def judge(content):
            if content != self.extra[e]:
                return "is not the %s of the templates" % e
            if e.endswith(".sh") and not os.stat(os.path.join(self.rep, e)).st_mode & 0o100:
                return "can no longer be executed"
        return judge

    def matrix(self, op):
        rs = np.random.RandomState(op["seed"] % 2 ** 32)
        x = rs.poisson(1.0, (op["rows"], op["cols"])).astype("f8")
        if op["float"]:
            x = x * rs.choice([.5, .25, 1.75], x.shape)
        fmt = (lambda v: "%.2f" % v) if op["float"] else (lambda v: "%d" % v)
        rows = [" ".join(fmt(v) for v in r) for r in x]
        n, why = op["rows"], None
        d = op.get("damage")
        if d:
            i = int(d["frac"] * op["rows"])
            if d["how"] == "cut":
                if i < op["rows"]:
                    rows = rows[:i] + ([" ".join(rows[i].split()[:-1])] if op["cols"] > 1 and i else [])
                    why = "is cut short"
                if not rows:
                    d = why = None
                    rows = [" ".join(fmt(v) for v in r) for r in x]
            elif d["how"] in ("more", "fewer"):
                n, why = (n + 1, "has fewer rows than stated") if d["how"] == "more" else (n - 1, "has more rows than stated")
            elif i:  # the first line decides on the number of columns
                parts = rows[i].split()
                j = int(d["frac"] * 1e4) % len(parts)
                if d["how"] == "word":
                    parts[j] = "oops"
                    why = "holds a word"
                elif d["how"] == "short line" and len(parts) > 1:
                    del parts[1 + j % (len(parts) - 1):]
                    why = "has a short line"
                elif d["how"] == "long line":
                    parts += ["1"] * (1 + j)
                    why = "has a long line"
                rows[i] = " ".join(parts)
        src = os.path.join(self.conv, "m%d.txt" % op["which"])
        with open(src, "w") as f:
            f.write("\n".join(rows) + "\n")

        def judge(content):
            m = pickle.loads(content)
            if bool(ssp.issparse(m)) != op["sparse"]:
                return "holds a %s" % type(m).__name__
            m = m.toarray() if ssp.issparse(m) else m
            if m.shape != x.shape or not (m == x.astype("f4")).all():
                return "does not hold the numbers of the text"
            if m.dtype.kind != ("f" if op["float"] else "i"):
                return "holds %s numbers" % m.dtype
        fn = text_to_numpy.save_as_numpy_sparse if op["sparse"] else text_to_numpy.save_as_numpy
        return (lambda: fn(src, n)), {src[:-4] + ".npy": judge}, None, why

    def results(self, op):
        rng = random.Random(op["seed"])
        text, want = "# printed results\n", []
        for i in range(op["n"]):
            name, K, desc = rng.choice(["LRO", "LDA", 'Odd"name']), rng.choice([5, 50]), rng.choice(["", "trained on all links", "run 2"])
            perp = rng.choice([None, round(rng.uniform(5, 900), 2)])
            dcs = {g: rng.randint(1, 400) for g in GROUPS}
            tables = [{g: [round(rng.random(), 3) for _ in MS] for g in GROUPS} for _ in range(2)]
            mrr, map_ = round(rng.random(), 6), round(rng.random(), 6)
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                print("%s, K=%d%s" % (name, K, " " + desc if desc else ""))
                print()
                if perp is not None:
                    print("Training perplexity is %.2f " % perp)
                for title, t in zip(("Precision", "Recall"), tables):
                    runner.printTable(title, t, dcs, MS)
                print("Mean reciprocal-rank: %f" % mrr)
                print("Mean average-precision: %f" % map_)
                print()
                print()
            text += out.getvalue()
            sets = [tables[j] for j in (0, 1)]
            full = []
            for label, members in [(l, [g]) for l, g in zip(LABELS, GROUPS)] + [("3->", GROUPS[2:]), ("5->", GROUPS[3:])]:
                n = sum(dcs[g] for g in members)
                for j, m in enumerate(MS):
                    full.append((label, str(m), n) + tuple(sum(t[g][j] * dcs[g] for g in members) / n for t in sets))
            for row in full:
                want.append(((name, str(K), desc, mrr, map_, perp) + row))
        src, dst = os.path.join(self.conv, "printed.txt"), os.path.join(self.conv, "results.csv")
        with open(src, "w") as f:
            f.write(text)

        def judge(content):
            import csv
            rows = list(csv.reader(io.StringIO(content.decode())))
            if len(rows) - 1 != len(want):
                return "has %d rows for the %d printed values" % (len(rows) - 1, len(want))
            got = []
            for r in rows[1:]:
                got.append((r[0], r[1], r[2], float(r[3]), float(r[4]), float(r[5]) if r[5] else None, r[6], r[7], int(r[8]), float(r[9]), float(r[10])))
            key = lambda r: tuple(str(v) for v in r[:9])  # noqa: E731
            for g, w in zip(sorted(got, key=lambda r: (key(r), r[9:])), sorted(want, key=lambda r: (key(r), r[9:]))):
                if key(g) != key(w) or not np.allclose(g[9:], w[9:], rtol=1e-9, atol=1e-12):
                    return "says %s where %s was printed" % (g, w)
        return (lambda: reshape_results.run([src, dst])), {dst: judge}, None, None

    def paper(self, op):
        rng = random.Random(op["seed"])
        year = rng.choice([1996, 1999, 2001])
        pid = (year % 100) * 100000 + rng.randrange(1, 99999)
        fname = "%07d.abs" % pid
        authors = ["%s %s" % (rng.choice(NAMES), rng.choice(LAST)) for _ in range(rng.randint(1, 4))]
        title = " ".join(rng.choice(["Gauge", "Strings", "Duality", "on", "Branes"]) for _ in range(rng.randint(1, 6)))
        venue = rng.choice([None, "Phys.Lett."])
        lines = ["-" * 60, "\\\\", "Paper: hep-th/%s" % fname[:-4], "From: someone@somewhere.edu", "", "Title: " + title]
        if rng.random() < .5 and " " in title:
            cut = title.rindex(" ")
            lines[-1] = "Title: " + title[:cut]
            lines.append("  " + title[cut + 1:])
        sep = rng.choice([", ", " and "])
        lines.append(rng.choice(["Authors: ", "Author: "]) + sep.join(a + rng.choice(["", " (Somewhere U.)"]) for a in authors))
        if venue:
            lines.append("Journal-ref: %s B123 (1996) 45" % venue)
        lines += ["\\\\", "  An abstract: with colons.", "\\\\"]
        src, dst = os.path.join(self.conv, fname), os.path.join(self.conv, "paper-%s.txt" % fname[:-4])
        with open(src, "w") as f:
            f.write("\n".join(lines) + "\n")
        want = ["id={%d}" % pid, "title={%s}" % title, "author={%s}" % "; ".join("%s, %s" % tuple(a.split()[::-1]) for a in authors)]
        want += (["venue={%s}" % venue] if venue else []) + ["year={%d}" % year, ""]

        def judge(content):
            got = content.decode().split("\n")
            if [g for g in got if g] != [w for w in want if w] or not content.endswith(b"\n\n"):
                return "says %s, not %s" % (got, want)
        return (lambda: arxiv_to_aan.run([src, dst])), {dst: judge}, None, None

    def authors(self, op):
        rng = random.Random(op["seed"])
        names, lines = set(), []
        for _ in range(op["n"]):
            them = ["%s, %s %d" % (rng.choice(LAST), rng.choice(NAMES), rng.randrange(op["n"])) for _ in range(rng.randint(1, 3))]
            names.update(them)
            lines += ["id={%d}" % rng.randrange(10 ** 6), "title={x}", "author={%s}" % "; ".join(them), ""]
        src, dst = os.path.join(self.conv, "metadata.txt"), os.path.join(self.conv, "author_ids.txt")
        with open(src, "w") as f:
            f.write("\n".join(lines))
        want = "".join("%d\t%s\n" % (i + 1, n) for i, n in enumerate(sorted(names)))
        return (lambda: arxiv_author_ids.run(src, dst)), \
            {dst: lambda c: None if c.decode() == want else "does not number the authors in order"}, None, None


def read(path):
    try:
        with open(path, "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


def execute(plan):
    st, viol, trace = Stats(), [], []
    root = tempfile.mkdtemp(prefix="p22-")
    clock = Clock(plan["clock"])
    rng = random.Random(plan["seed"])
    hits = 0

    try:
        w = World(plan, root)
        for op in plan["ops"]:
            if viol:
                break
            st.count["op " + op["op"]] += 1
            if op["op"] == "folds":
                trace.append("saved " + ", ".join(w.save_folds(op, clock)))
                continue
            call, outputs, returned, must_fail = getattr(w, op["op"])(op)
            show = "%s(%s)" % (op["op"], ", ".join("%s=%s" % (k, v) for k, v in sorted(op.items()) if k not in ("op", "fault", "seed", "listing", "power")))
            f = op.get("fault") or {}
            disk, fault = seams.SimDisk(root), contextlib.nullcontext()
            if f:  # where can it fail?
                probe = contextlib.nullcontext()
                if f["kind"] in ("interrupt", "memory"):
                    probe = seams.Fault(f["kind"], 0, where=lambda f: True)
                dry = seams.SimDisk(root)
                dry.listing = random.Random(op["listing"])
                keep = {p: read(p) for p in outputs}
                with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                    try:
                        with seams.DiskSeam(dry), probe:
                            call()
                    except (Exception, SystemExit):
                        pass
                for d in (w.rep, w.conv):  # as if it had not been
                    for n in os.listdir(d):
                        p = os.path.join(d, n)
                        if p not in keep and n.endswith(".part"):
                            os.remove(p)
                for p, c in keep.items():
                    if c is None:
                        if os.path.exists(p):
                            os.remove(p)
                    else:
                        with open(p, "wb") as fh:
                            fh.write(c)
                where = [i + 1 for i, o in enumerate(dry.ops) if o[0] in STRIKES[f["kind"]]] if f["kind"] in STRIKES else range(1, probe.count + 1)
                if where and f["kind"] in ("interrupt", "memory"):
                    fault = seams.Fault(f["kind"], at(f, len(where)), where=lambda f: True)
                elif where:
                    disk.fault = {"kind": f["kind"], "n": where[at(f, len(where)) - 1]}
            before = {p: read(p) for p in outputs}
            disk.listing = random.Random(op["listing"])
            err = result = None
            crashed = False
            try:
                with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                    with seams.DiskSeam(disk), fault:
                        result = call()
            except seams.SimCrash:
                crashed, err = True, "the machine stops"
            except (Exception, KeyboardInterrupt, SystemExit) as e:
                err = "%s: %s" % (type(e).__name__, str(e)[:100])
            struck = "%s at %s" % (f["kind"], fault.at) if getattr(fault, "fired", 0) else \
                "%s at disk operation %d (%s of %s)" % (f["kind"], disk.fault["n"], disk.fired[1], disk.fired[2]) if disk.fired else None
            if struck:
                hits += 1
                st.faults[f["kind"] + ("" if f["kind"] in ("interrupt", "memory") else " on " + disk.fired[1])] += 1
                st.sets["fault points"].add(op["op"] + " " + struck)
            if must_fail:
                hits += 1
                st.faults["input " + must_fail] += 1
            lost = ""
            if crashed or op.get("power"):
                disk.fault = {}
                lost = seams.power_loss(root, disk.dirty, rng)
                hits += 1
                st.faults["power loss"] += 1
                lost = "; power lost, on disk lost: %s" % lost
            trace.append("%s -> %s%s%s" % (show, err or "done", "  <- " + struck if struck else "", lost))

            def bad(sig, msg):
                viol.append({"sig": sig + " " + op["op"], "msg": "%s: %s" % (show, msg), "trace": list(trace)})
            if err and not struck and not must_fail:
                bad("refused", "failed with nothing wrong: %s" % err)
                continue
            if not err and must_fail:
                bad("damage-unnoticed", "went through although its input " + must_fail)
                continue
            if err and disk.fired and disk.fired[0] == "short" and not must_fail:
                bad("short", "a %s which went through only in part at first made it fail: %s" % (disk.fired[1], err))
                continue
            after = (", although " + struck if struck else "") + lost
            if not err and returned:
                msg = returned(result)
                if msg:
                    bad("return", msg)
                    continue
            for p, judge in outputs.items():
                c = read(p)
                if c == before[p] and err:
                    continue
                name = os.path.basename(p)
                if c is None:
                    bad("missing", "%s is %s%s" % (name, "missing" if before[p] is None else "gone", after))
                    break
                try:
                    msg = None if must_fail is None else "was written although the input " + must_fail
                    msg = msg or judge(c)
                except Exception as e:
                    msg = "cannot be read (%s: %s)" % (type(e).__name__, str(e)[:80])
                if msg:
                    bad("incomplete" if err or lost else "wrong", "%s %s%s" % (name, msg, " after %s%s" % (err, after) if err else after))
                    break
                st.count["outputs judged"] += 1
    finally:
        shutil.rmtree(root, ignore_errors=True)
    out = report(plan, viol, st, digest([trace]) if hits or st.count["outputs judged"] > 1 else None, {"history": trace})
    out["stats"]["sim_seconds"] = clock.moved
    return out


def run(plan):
    return isolate(execute, plan)


gen_only, gen_run, run = entry(gen, run)
