"""P14: loading a dataset is complete or fails.

Files of a dataset are loaded from a simulated disk with failing and short
reads and opens, missing and truncated files, files of another length, and
interrupts; once and again, in any order.  A load either gives exactly the
documents the files hold, in the requested order, or raises; and leaves no
file open."""
import os
import pickle
import shutil
import tempfile

from .p12 import DT, Ref, compare, dense, draw_source, flat, loaded_rows, source, square, ssp, write_files
from .faulty import *
from ..world import DataSet

PARTS = ("words", "feats", "links", "dict", "cats")


def gen(rng, tier):
    s = draw_source(rng)
    s.update(D=rng.choice([rng.randint(2, 12), rng.randint(20, 90)]), T=rng.randint(5, 60), files=False, order=False)
    D = s["D"]
    ops = []
    for _ in range(rng.randint(1, 5)):
        op = {"op": "load", "seed": draw_seed(rng), "limit": rng.choice([0, 0, rng.randint(1, D), D, D + 2]),
              "order": rng.choice([None, None, "perm", "part", "list", "same"]), "bare": rng.random() < .25}
        r = rng.random()
        if r < .5:
            op["fault"] = {"kind": rng.choice(["eio", "eio", "short", "short", "emfile", "interrupt", "memory", "alloc", "lib"]),
                           "frac": round(rng.random(), 4)}
        elif r < .65:
            op["damage"] = {"part": rng.choice(PARTS), "how": rng.choice(["cut", "cut", "missing", "empty"]), "frac": round(rng.random(), 4)}
        elif r < .85:
            op["damage"] = {"part": rng.choice(PARTS), "how": "length", "by": rng.choice([-1, 1, 3, -3])}
        ops.append(op)
    return {"sources": [s], "ops": ops, "models": [], "data": []}


def resize(x, n, part):
    """The same part for another number of documents."""
    if part in ("dict", "cats"):
        return (x * 3)[:n]
    idx = np.arange(n) % x.shape[0]
    return x[idx]


def execute(plan, counts):
    st, viol, trace, found = Stats(), [], [], []
    ds, ref = source(plan["sources"][0])
    root = tempfile.mkdtemp(prefix="p14-")
    D = ds.doc_count
    cats = None if ref.cats is None else ref.cats
    hits = 0
    try:
        for i, op in enumerate(plan["ops"]):
            if viol:
                break
            for f in os.listdir(root):
                os.remove(os.path.join(root, f))
            parts = dict(zip(PARTS, (ds.words, ds.feats, ds.links, ref.words, cats)))
            dmg = op.get("damage")
            must_fail = None
            if dmg and parts[dmg["part"]] is not None and dmg["how"] == "length" and dmg["part"] not in ("dict",):
                p = dmg["part"]
                n = max(1, D + dmg["by"])
                if n != D and not (p == "words" and all(parts[q] is None for q in ("feats", "links", "cats"))):
                    parts[p] = resize(parts[p], n, p)
                    must_fail = "the %s are those of %d documents, not %d" % (p, n, D)
                    if p == "words":
                        must_fail = "there are words of %d documents, other parts of %d" % (n, D)
            names = write_files(root, parts["words"], parts["feats"], parts["links"], parts["cats"], parts["dict"], op.get("bare"))
            if dmg and dmg["how"] != "length":
                path = names[PARTS.index(dmg["part"])]
                if path:
                    n = os.path.getsize(path)
                    if dmg["how"] == "missing":
                        os.remove(path)
                    else:
                        with open(path, "r+b") as f:
                            f.truncate(0 if dmg["how"] == "empty" else min(n - 1, int(dmg["frac"] * n)))
                    must_fail = "the file of the %s is %s" % (dmg["part"], {"cut": "cut short"}.get(dmg["how"], dmg["how"]))
            if must_fail:
                hits += 1
                st.faults["files of different lengths" if dmg["how"] == "length" else "file " + dmg["how"]] += 1
            rs = np.random.RandomState(op["seed"])
            order = {None: None, "perm": rs.permutation(D), "part": rs.permutation(D)[:rs.randint(1, D + 1)],
                     "list": [int(x) for x in rs.permutation(D)], "same": np.arange(D)}[op["order"]]
            disk, fault = seams.SimDisk(root), None
            f = op.get("fault")
            if f:
                k = f["kind"]
                n = counts[i] if counts else 0
                if k in ("interrupt", "memory", "alloc", "lib"):
                    fault = seams.Fault(k, at(f, n) if n else 0)
                elif n:
                    disk.fault = {"kind": {"emfile": "eio"}.get(k, k), "n": at(f, n)}
            fds = set(os.listdir("/proc/self/fd"))
            got, err = None, None
            seams.simalloc.set_pattern(1 + i % 5, op["seed"])
            with seams.DiskSeam(disk):
                try:
                    if fault:
                        with fault:
                            got = DataSet.from_files(*names, order=order, limit=op["limit"])
                    else:
                        got = DataSet.from_files(*names, order=order, limit=op["limit"])
                except (Exception, KeyboardInterrupt) as e:
                    err = "%s: %s" % (type(e).__name__, str(e)[:80])
            struck = (fault is not None and fault.fired) or disk.fired
            what = "load(%s, limit=%s, order=%s)" % ("+".join(p for p in PARTS if parts[p] is not None), op["limit"], op["order"])
            why = must_fail or (struck and (("%s at %s" % (fault.kind, fault.at)) if fault is not None else "%s on %s of %s" % disk.fired)) or ""
            trace.append("%s%s -> %s" % (what, "   <- " + why if why else "", err or "loaded"))
            found.append(fault.count if fault is not None else len(disk.ops))
            st.count["loads"] += 1
            if struck:
                hits += 1
                st.faults[f["kind"]] += 1
                st.sets["fault points"].add(str(fault.at if fault is not None else disk.fired))

            def bad(sig, msg):
                viol.append({"sig": sig, "msg": "%s: %s" % (what, msg), "trace": list(trace)})
            left = []
            for h in disk.open_files:
                try:
                    if not h.closed:
                        left.append(os.path.basename(str(h.path)))
                except ValueError:
                    pass
            if left:
                bad("left-open", "left %s open%s" % (left, " after " + err if err else ""))
            if got is not None:
                if must_fail:
                    bad("damage-unnoticed", "loaded without complaint although " + must_fail)
                    continue
                rows = loaded_rows(D, order, op["limit"])
                want = ref.rows(rows, rows if square(ref) else None, order=rows)
                w = compare(got, want)
                if w:
                    bad("partial-or-misaligned", "the loaded dataset %s%s" % (w, ", although " + why if why else ""))
            elif not why:
                bad("load-failed", "whole files were refused: %s" % err)
            elif struck and fault is None and disk.fired[0] == "short":
                bad("short-read", "a read that gave only part at first made loading fail: %s" % err)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return found, viol, st, trace, hits


def run(plan):
    counts, viol, st, trace, hits = isolate(execute, plan, None)
    if not viol and any(op.get("fault") for op in plan["ops"]):
        _, viol, st, trace, hits = isolate(execute, plan, counts)
    return report(plan, viol, st, digest(trace) if hits else None, {"source": plan["sources"], "history": trace})


gen_only, gen_run, run = entry(gen, run)
