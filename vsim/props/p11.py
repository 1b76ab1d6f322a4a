"""P11: saved result files are complete or absent.

A history of saves into one directory, on a simulated disk which fails, fills
up, writes short or stops with the machine at planned operations, under
interrupts and results which cannot be serialised, and with a clock that jumps.
The reference says, per file name, which complete contents it may hold."""
import contextlib
import io
import os
import pickle
import random
import shutil
import tempfile

from .faulty import *
from .p10 import Clock
from ..world import DataSet
from sidetopics.run import __main__ as runner

MODS = ("mod:lda_cvb0", "mod:lda_cvb", "mod:lda_vb", "mod:lda_vb_python", "mod:lda_gibbs", "mod:mom_em",
        "mod:ctm", "mod:ctm_bohning", "mod:stm_yv", "mod:stm_yv_bohning")


class Bomb:
    """Something in the results which cannot be serialised."""

    def __reduce__(self):
        raise RuntimeError("simulated: cannot be serialised")


def gen(rng, tier):
    plan = {"models": [draw_model(rng, (rng.choice(MODS),), tier)],
            "data": [{"D": rng.randint(3, 40), "T": rng.randint(8, 60), "seed": draw_seed(rng), "rate": .8, "dtype": "f8"}]}
    fix_data_for(plan)
    plan["models"][0]["K"] = min(plan["models"][0]["K"], 5)
    plan["iters"] = rng.randint(1, 4)
    plan["clock"] = [rng.choice([0, 0, 1, 59, 61, -61]) for _ in range(5)]
    plan["seed"] = draw_seed(rng)
    ops = []
    for i in range(rng.randint(2, 8)):
        r = rng.random()
        if i == 0 or r < .6:
            op = {"op": "save", "v": rng.randrange(3), "fold": rng.randrange(2), "via": rng.random() < .5,
                  "query": rng.random() < .6, "big": rng.choice([0, 0, 3000])}
            r = rng.random()
            if r < .45:
                op["fault"] = {"kind": rng.choice(["eio", "full", "short"]), "frac": round(rng.random(), 4)}
            elif r < .65:
                op["fault"] = {"kind": "crash", "frac": round(rng.random(), 4)}
            elif r < .75:
                op["fault"] = {"kind": rng.choice(["interrupt", "memory"]), "frac": round(rng.random(), 4)}
            elif r < .82:
                op["fault"] = {"kind": "bomb"}
        elif r < .8:
            op = {"op": "load", "f": rng.randrange(4), "order": rng.choice(["same", "same", "swap", "short", "long", "shift"])}
            if rng.random() < .6:
                op["fault"] = {"kind": rng.choice(["eio", "short", "interrupt", "memory"]), "frac": round(rng.random(), 4)}
        elif r < .9:
            op = {"op": "power"}
        else:
            op = {"op": "cut", "f": rng.randrange(4), "frac": round(rng.random(), 4)}
        ops.append(op)
    plan["ops"] = ops
    return plan


def other_order(order, how, rng):
    order = np.array(order)
    if how == "same" or len(order) < 2:
        return order.copy()
    if how == "swap":
        i, j = rng.sample(range(len(order)), 2)
        order[[i, j]] = order[[j, i]]
        return order
    if how == "short":
        return order[:-1]
    if how == "long":
        return np.append(order, len(order))
    return np.roll(order, 1)


def value(t):
    return digest(list(t))


def execute(plan):
    st, viol, trace = Stats(), [], []
    s = Session(plan)
    m, data = s.model(0), s.ds(0)
    seams.seed_all(plan["seed"])
    perm = np.random.permutation(data.doc_count)
    data = DataSet(data.words, data.feats, data.links, data.word_dict, data.doc_categories, order=perm, debug=True)
    variants = []
    for v in range(3):
        q = m.new_query(data)
        model, q, (itrs, vbs, likes) = m.mdl.train(data, m.mdl.newModelFromExisting(m.model), q, m.plan(plan["iters"] + v))
        _, qq = m.mdl.query(data, model, m.new_query(data), m.plan(2))
        variants.append((model, q, qq, list(range(v + 1)), [0.5 * v], [float(v)] * (v + 1)))
    name = plan["models"][0]["kind"]
    root = tempfile.mkdtemp(prefix="p11-")
    clock = Clock(plan["clock"])
    rng = random.Random(plan["seed"])
    may = {}            # file name -> contents it may hold
    dirty = {}
    hits = 0

    def bad(sig, msg):
        viol.append({"sig": sig, "msg": "%s: %s" % (name, msg), "trace": list(trace)})

    def load(path):
        with open(path, "rb") as f:
            return pickle.load(f)

    def look(after):
        for fn in sorted(os.listdir(root)):
            if fn.endswith(".pkl"):
                try:
                    got = value(load(os.path.join(root, fn)))
                except Exception as e:
                    return bad("incomplete-file", "%s is not complete %s (%s: %s)" % (fn, after, type(e).__name__, str(e)[:80]))
                if got not in may.get(fn, ()):
                    return bad("wrong-content", "%s does not hold what was saved, %s" % (fn, after))
                may[fn] = {got}
        for fn, c in may.items():
            if not os.path.exists(os.path.join(root, fn)) and None not in c:
                return bad("file-lost", "the complete file %s is gone %s" % (fn, after))
            if not os.path.exists(os.path.join(root, fn)):
                may[fn] = {None}

    def expected(op):
        model, q, qq, itrs, vbs, likes = variants[op["v"]]
        itrs = itrs + list(range(op["big"]))
        qq = qq if op["query"] else None
        want = [data.order, itrs, vbs, likes, model, q, qq]
        if name == "mod:stm_yv_bohning":  # a derived matrix is left out
            want[5] = q._replace(expMeans=None)
            want[6] = qq and qq._replace(expMeans=None)
        return (model, data, op["fold"], itrs, vbs, likes, q, qq), value(want)

    def save(op, disk, fault):
        args, _ = expected(op)
        args = list(args)
        if (op.get("fault") or {}).get("kind") == "bomb":
            args[5] = args[5] + [Bomb()]
        with contextlib.redirect_stdout(io.StringIO()), clock, seams.DiskSeam(disk), fault:
            if op["via"]:
                files = []
                return runner.save_if_necessary(files, root, *args, m.mdl)[-1]
            return runner.save_model(root, *args, m.mdl)

    def opportunities(op, kind):
        """Dry run of a save or load elsewhere, to know where it can fail."""
        nonlocal root
        real, keep = root, (clock.now, clock.i)
        root = tempfile.mkdtemp(prefix="p11d-")
        disk, fault = seams.SimDisk(root), contextlib.nullcontext()
        if kind in ("interrupt", "memory"):
            fault = seams.Fault(kind, 0, where=lambda f: True)
        try:
            if op["op"] == "load":
                shutil.copy(os.path.join(real, op["name"]), root)
                doload(op, disk, fault)
            else:
                save(dict(op, fault=None), disk, fault)
            return fault.count if kind in ("interrupt", "memory") else len(disk.ops)
        except ValueError:
            return fault.count if kind in ("interrupt", "memory") else len(disk.ops)
        finally:
            shutil.rmtree(root)
            root = real
            clock.now, clock.i = keep

    def doload(op, disk, fault):
        with seams.DiskSeam(disk), fault:
            return runner.load_and_adapt_lda_model(os.path.join(root, op["name"]), op["want"])

    try:
        for op in plan["ops"]:
            if viol:
                break
            st.count["op " + op["op"]] += 1
            f = op.get("fault") or {}
            fault, disk = contextlib.nullcontext(), seams.SimDisk(root)
            disk.dirty = dirty
            files = sorted(fn for fn in os.listdir(root) if fn.endswith(".pkl"))
            if op["op"] in ("load", "cut"):
                if not files:
                    continue
                op = dict(op, name=files[op["f"] % len(files)])
            if op["op"] == "load":
                op["want"] = other_order(data.order, op["order"], random.Random(op["f"]))
            if f and f["kind"] != "bomb":
                n = opportunities(op, f["kind"])
                if n:
                    if f["kind"] in ("interrupt", "memory"):
                        fault = seams.Fault(f["kind"], at(f, n), where=lambda f: True)
                    else:
                        disk.fault = {"kind": f["kind"], "n": at(f, n)}

            def struck():
                w = "cannot be serialised" if f.get("kind") == "bomb" else \
                    "%s at %s" % (f["kind"], fault.at) if getattr(fault, "fired", 0) else \
                    "%s at disk operation %d (%s)" % (f["kind"], disk.fault["n"], disk.fired[1]) if disk.fired else None
                if w:
                    st.faults[f["kind"] if f["kind"] not in ("short", "eio") else f["kind"] + " on " + op["op"]] += 1
                    st.sets["fault points"].add(op["op"] + " " + w)
                return w

            if op["op"] == "save":
                _, want = expected(op)
                with clock:
                    keep = clock.now, clock.i
                try:
                    path = save(op, disk, fault)
                    w = struck()
                    trace.append("save variant %d, fold %d -> %s%s" % (op["v"], op["fold"], os.path.basename(path), ", although " + w if w else ""))
                    fn = os.path.basename(path)
                    may[fn] = {want}
                    if f.get("kind") == "bomb":
                        bad("failure-hidden", "saving what cannot be serialised reported success")
                    if not viol:
                        look("after a completed save")
                except seams.SimCrash:
                    hits += 1
                    w = struck()
                    trace.append("save variant %d, fold %d: machine stops: %s" % (op["v"], op["fold"], w))
                    disk.fault = {}
                    lost = seams.power_loss(root, dirty, rng)
                    trace.append("lost on disk: %s" % lost)
                    dirty.clear()
                    for fn in os.listdir(root):
                        may.setdefault(fn, {None})
                    for fn in may:
                        may[fn] = may[fn] | {want}
                    look("after the machine stopped")
                except (Exception, KeyboardInterrupt) as e:
                    w = struck()
                    trace.append("save variant %d, fold %d fails: %s: %s" % (op["v"], op["fold"], type(e).__name__, w))
                    if not w:
                        bad("save-failed", "a save failed with nothing wrong: %s: %s" % (type(e).__name__, str(e)[:100]))
                    hits += 1
                    for fn in os.listdir(root):
                        may.setdefault(fn, {None})
                    for fn in may:
                        may[fn] = may[fn] | {want}
                    if not viol:
                        look("after a failed save")
            elif op["op"] == "power":
                lost = seams.power_loss(root, dirty, rng)
                trace.append("power loss; lost on disk: %s" % lost)
                st.faults["power loss between calls"] += 1
                hits += 1
                dirty.clear()
                look("after a power loss")
            elif op["op"] == "cut":
                p = os.path.join(root, op["name"])
                n = os.path.getsize(p)
                with open(p, "r+b") as fh:
                    fh.truncate(min(n - 1, int(op["frac"] * n)))
                trace.append("%s cut to %d of %d bytes" % (op["name"], os.path.getsize(p), n))
                st.faults["file cut short"] += 1
                hits += 1
                try:
                    runner.load_and_adapt_lda_model(p, data.order)
                    bad("cut-file-loaded", "a file cut short was loaded without complaint")
                except Exception:
                    pass
                os.remove(p)
                may[op["name"]] = {None}
            else:
                right = op["want"].shape == data.order.shape and (op["want"] == data.order).all()
                p = os.path.join(root, op["name"])
                try:
                    got = doload(op, disk, fault)
                    w = struck()
                    trace.append("load %s with %s order%s" % (op["name"], op["order"], ", although " + w if w else ""))
                    full = load(p)
                    if not right:
                        bad("wrong-order-accepted", "a model saved for another document order was accepted (%s)" % op["order"])
                    elif digest(list(got)) != digest([full[4], full[5]]):
                        bad("loaded-differs", "loading gave another model or topics than were saved")
                except Exception as e:
                    w = struck()
                    trace.append("load %s with %s order fails: %s %s" % (op["name"], op["order"], type(e).__name__, w or ""))
                    if right and not w:
                        bad("load-failed", "a complete file was refused: %s: %s" % (type(e).__name__, str(e)[:100]))
                except KeyboardInterrupt:
                    struck()
                    hits += 1
                if not viol:
                    look("after loading")
    finally:
        shutil.rmtree(root, ignore_errors=True)
    out = report(plan, viol, st, digest([trace]) if hits else None, {"model": plan["models"][0], "history": trace})
    out["stats"]["sim_seconds"] = clock.moved
    return out


def run(plan):
    return isolate(execute, plan)


gen_only, gen_run, run = entry(gen, run)
