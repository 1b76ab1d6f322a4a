"""Sessions in which planned calls fail at a planned point: the engine of
P03, P04, P15 and P16.

An operation with a "fault" is first carried out in an undisturbed session,
which also counts the opportunities for its kind of fault (lines executed,
array allocations, entries into numpy and scipy).  The faulted session then
fails at the planned fraction of them, and repeats the call."""
from .base import *

FAULT_KINDS = ("interrupt", "interrupt", "memory", "alloc", "alloc", "lib")


def draw_fault(rng):
    r = rng.random()
    # the ends of a computation are where state is half committed
    frac = rng.random() if r < 0.6 else (1 - rng.random() * 0.08 if r < 0.85 else rng.random() * 0.08)
    return {"kind": rng.choice(FAULT_KINDS), "frac": round(frac, 5)}


def at(fault, count):
    return 1 + min(count - 1, int(fault["frac"] * count))


def clean_session(plan, ops, skip=(), probe=None, count=True):
    s = Session(plan)
    out = []
    for i, op in enumerate(ops):
        if i in skip:
            out.append(None)
            continue
        f = None
        if count and op.get("fault"):
            f = seams.Fault(op["fault"]["kind"], 0)
        r = s.do(op, f)
        r = {k: v for k, v in r.items() if k != "val"}
        if f is not None:
            r["count"] = f.count
        if probe:
            r["probe"] = probe(s, op)
        out.append(r)
    return out


def faulted_session(plan, ops, clean, probe=None, retry=True, after_fault=None):
    """Outcome per operation (of the repeated call, where the first failed)
    and, per fault, what happened.  `after_fault(s, op)` may add checks made
    between the failure and the repeated call."""
    s = Session(plan)
    out, hits = [], []
    for i, op in enumerate(ops):
        fault = None
        if op.get("fault") and clean[i].get("count") and "ok" in clean[i]:
            fault = seams.Fault(op["fault"]["kind"], at(op["fault"], clean[i]["count"]))
        before = probe(s, op) if probe else None
        r = s.do(op, fault)
        if fault is not None and fault.fired:
            hit = {"op": i, "kind": fault.kind, "at": fault.at, "n": fault.n, "of": clean[i]["count"],
                   "before": before, "swallowed": "ok" in r, "err": r.get("err"),
                   "after": probe(s, op) if probe else None}
            if "ok" not in r:
                if after_fault:
                    hit["extra"] = after_fault(s, op)
                if retry:
                    r = s.do(op)
            hits.append(hit)
        r = {k: v for k, v in r.items() if k != "val"}
        if probe:
            r["probe"] = probe(s, op)
        out.append(r)
        if hits and (hits[-1]["swallowed"]):
            break  # handled by the code: what is right after that is not known
    return out, hits


def abandon(rng, ops):
    """Leaves one planned fault, whose call the session does not repeat."""
    i = rng.choice([i for i, o in enumerate(ops) if o.get("fault")])
    for j, o in enumerate(ops):
        if j != i:
            o.pop("fault", None)


def run_abandoned(plan, kind, ops, clean, probe, st, viol, done_too):
    """After a call failed for good, later ones give what they would have given
    had it never been made (or, with done_too, had it been completed).  Returns the hits."""
    where = [i for i, o in enumerate(ops) if o.get("fault")]
    if len(where) != 1:
        raise Invalid
    i = where[0]
    out, hits = isolate(faulted_session, plan, ops, clean, probe, False)
    count_faults(st, hits)
    if not hits or hits[0]["swallowed"]:
        return hits
    st.count["calls failed for good"] += 1
    h = hits[0]
    if not done_too and h["before"] != h["after"] or clean[i]["probe"] == h["before"] and not done_too:
        if h["after"] == clean[i]["probe"]:
            st.count["calls completed despite the fault"] += 1
            return hits
    refs = [isolate(clean_session, plan, ops, (i,), probe, False)] + ([clean] if done_too else [])
    for j in range(i + 1, len(ops)):
        if not any(same(out[j], r[j]) and out[j]["probe"] == r[j]["probe"] for r in refs):
            viol.append({"sig": "later-result " + ops[j]["op"], "msg": "%s: after %s failed by %s, %s gave %s, but %s had it never been called" % (
                kind, show(ops[i]), show_fault(h), show(ops[j]), result_of(out[j]), result_of(refs[0][j])), "trace": trace(ops, hits)})
            break
    return hits


def count_faults(st, hits):
    for h in hits:
        st.faults[h["kind"]] += 1
        st.sets["fault points"].add(h["at"] or "?")
        if h["swallowed"]:
            st.count["faults the code absorbed"] += 1


def show_fault(h):
    return "%s at %s (opportunity %d of %d)" % (h["kind"], h["at"], h["n"], h["of"])


def trace(ops, hits):
    by = {h["op"]: h for h in hits}
    return [show(o) + ("   <- fails: " + show_fault(by[i]) if i in by else "") for i, o in enumerate(ops)]
