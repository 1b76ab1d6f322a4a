"""The registered checks."""
MODELS = ["sidetopics.model.sklearn.lda_cvb.TopicModel", "all inference modules it drives", "compiled kernels, built from the working tree",
          "numpy, scipy"]
SEAMS = ["C rand/srand (bit-compatible virtual streams)", "numpy's array allocator (poisoned, failing)",
         "numpy's global stream (reset per operation)"]


def _c(module, rule, q=600, t=6000, **kw):
    d = dict(module=module, rule=rule, runs={"quick": q, "thorough": t}, cap={"quick": 75, "thorough": 1500},
             real=MODELS, stub=SEAMS)
    d.update(kw)
    return d


CHECKS = {
    "P01": _c("p01", "One seeded session run in a pristine and in a disturbed process; non-trivial: the session's first "
                     "fit succeeded; distinct by the digest of all outcomes.", peers=True),
    "P02": _c("p02", "A seeded session of fits, transforms and scores on 2-4 datasets; non-trivial: at least one "
                     "erasable inference succeeded and the final fit did; distinct by the digest of all outcomes."),
    "P03": _c("p03", "A seeded session in which inference calls fail at a planned point and are repeated, or are followed by "
                     "a request to continue; non-trivial: at least one fault struck a call which succeeds otherwise; distinct by "
                     "the undisturbed outcomes and the fault points."),
    "P04": _c("p04", "A seeded session in which fits fail at a planned point and are repeated; non-trivial: at least one fault "
                     "struck a fit which succeeds otherwise; distinct by the undisturbed outcomes and the fault points."),
    "P05": _c("p05", "Either one long inference against the same stopped and continued, or a history of keeping, continuing and dropping calls against a one-variable reference model; non-trivial: both inferences completed, or at least one continuation was asked for; distinct by the digest of the outcomes."),
    "P06": _c("p06", "A session of fits and inferences run undisturbed and with planned extreme draws, with every reported or kept distribution checked after every operation; non-trivial: at least one distribution was reported; distinct by the digest of all outcomes."),
    "P07": _c("p07", "A history of fits, inferences, copies, restores and failed calls with scores compared to the definition at every point; non-trivial: at least one score was compared; distinct by the digest of all outcomes."),
    "P08": _c("p08", "2-4 callers each run alone and then interleaved at planned lines; non-trivial: at least one call succeeded and the interleaved run switched between callers more often than their number; distinct by outcomes and switch points."),
    "P09": _c("p09", "A session stopped and restored at planned points, against the same session never stopped; non-trivial: at least one stop and one successful call; distinct by outcomes and stops.", peers=True),
    "P10": _c("p10", "The real runner evaluates a model with planned failures of steps of folds, of the disk and jumps of the clock; non-trivial: a fault struck a fold; distinct by recorded likelihoods and faults."),
    "P11": _c("p11", "A history of saves and loads on a simulated disk with planned faults; non-trivial: a fault struck; distinct by the whole history."),
    "P12": _c("p12", "A history of operations on a pool of datasets, some failing at a planned allocation or library call; non-trivial: at least two operations were carried out; distinct by the whole history."),
    "P13": _c("p13", "Seeded split calls, alone, then among other global draws, memory contents and failures, or interleaved with other callers; non-trivial: at least one split was made; distinct by results, fault points and switches."),
    "P14": _c("p14", "A history of loads of one dataset's files with disk faults, damaged files and interrupts; non-trivial: a fault or damage struck a load; distinct by the whole history."),
    "P15": _c("p15", "A session of fits, inferences and failing calls, with the inner counts compared to a ledger of the words taught after every operation; non-trivial: at least two operations succeeded; distinct by outcomes and fault points."),
    "P16": _c("p16", "A session of fits, inferences, scores, splits and kernel calls, some failing, by a caller who holds every object passed or received; non-trivial: at least two operations succeeded; distinct by outcomes and fault points."),
    "P17": _c("p17", "A history of copies, fits and inferences on source and copies, against each model living through its lineage alone; non-trivial: a copy was made and more than three results were compared; distinct by outcomes and fault points."),
    "P18": _c("p18", "A history of fits and inferences run without and with progress measurement at two intervals; non-trivial: at least one result was compared; distinct by outcomes and intervals."),
    "P21": _c("p21", "A history of command-line evaluations, some failing, whose last is also run alone in a fresh interpreter; non-trivial: the last completed and something ran before it; distinct by printed results, saved models and fault points.", peers=True),
    "P22": _c("p22", "A history of runs of the reporting and conversion tools over one directory, with disk faults, machine stops, power losses, interrupts, damaged inputs and any listing order; non-trivial: a fault struck or more than one output was judged; distinct by the whole history.", real=["sidetopics.run.report_generator, text_to_numpy, reshape_results, arxiv_to_aan, arxiv_author_ids", "sidetopics.run.__main__: newModelFile, printTable", "numpy, scipy"], stub=["open/read/write/fsync/rename/remove/sendfile/listdir on the scratch directory (simulated disk)", "clock", "notebook templates (small ones with the same placeholders)"]),
}

# per property: what is searched, and what assurance it gives
NOTES = {
    "P01": ("sessions and process disturbances (earlier draws, freed memory contents, hash seeds)",
            "Bit-exact comparison of a session in a pristine and in a disturbed process over the drawn sessions; assumes the virtual C generator equals glibc's, which is checked on start."),
    "P02": ("call histories", "The same history with and without its inference calls must give bit-identical later results; explores seeded histories, not all of them."),
    "P03": ("fault points and call histories", "Interrupts, failing allocations and failing library calls at drawn points of an inference call, against the undisturbed session; faults inside the wrapper's own commit statements are not injected."),
    "P04": ("fault points and call histories", "Interrupts, failing allocations and failing library calls at drawn points of a fit, against the undisturbed session and the state before the call."),
    "P05": ("call histories with kept and dropped inference state", "Compared with one longer run (by tolerance) and with a one-variable reference model of which dataset may be continued."),
    "P06": ("sessions and extreme random draws", "Every reported distribution is checked after every operation, with planned boundary values of both generators."),
    "P07": ("call histories and failed calls", "Scores are recomputed from the definition in double precision at every point of a history."),
    "P08": ("thread schedules", "2-4 callers interleaved at planned source lines against each running alone; random streams are virtual per caller; kernels without the GIL are not pre-empted inside."),
    "P09": ("crash points and restarts", "Sessions stopped, serialised and restored in the same, a fresh process or a fresh interpreter, bit-identical to the session never stopped."),
    "P10": ("failing steps of folds, disk faults and clock jumps of evaluation runs",
            "Reported totals, files and untouched inputs are compared with records of the folds that completed and with the undisturbed run; failures inside the runner's own bookkeeping lines are not injected."),
    "P11": ("disk fault points, machine stops, power losses, interrupts and clock jumps during saves and loads",
            "After every operation each final file is compared with the contents the reference allows it; unsynced data of a stopped machine may be lost, directory entries are not."),
    "P12": ("histories of dataset operations with failing allocations and library calls",
            "Every dataset of the pool is compared with a dense reference after every operation; what the reference cannot decide (link columns that merely look like rows) is left out."),
    "P13": ("split calls among disturbances of the random streams and memory, failures and interleavings",
            "Conservation is checked on dense copies and every call is repeated in disturbed sessions; folded link splits keep the links of documents with too few in both halves, as documented."),
    "P14": ("disk fault points, file damage and interrupts during loads",
            "Every successful load is compared with a dense reference; open handles are counted after every load."),
    "P15": ("histories of fits, continuations and failing calls",
            "Counts are compared with a ledger after every operation, within the rounding of the kernels' number type; online learning, which weighs words by design, is left out."),
    "P16": ("histories of calls and failures by a caller who shares objects",
            "Every object ever passed in or handed out is compared, by meaning, after every call; the states module-level train works on in place, as documented, are not the caller's."),
    "P17": ("interleavings of calls, some failing, on sources and copies",
            "Bit-exact comparison of every result with a session of one model and no copies; a model is not judged after its own failed call (P03, P04 do)."),
    "P18": ("histories under different measuring intervals",
            "Bit-exact comparison of results and of the iterations the compiled kernels were asked for; up to 20 iterations, before which no kind may stop early; the mixture models' measures are left out."),
    "P21": ("histories of evaluation runs, some failing, disk faults and clock jumps",
            "The last evaluation of a history must print and save exactly what it does alone in a fresh interpreter with another hash seed; final tables are recomputed from the folds' tables; covers the model and evaluation combinations which work at all with the installed numpy."),
    "P22": ("fault points of the disk, machine stops, power losses, interrupts, damaged inputs and directory orders",
            "Every output is judged by an executable reference of what its inputs prescribe after every run; inputs damaged in a way which leaves them well-formed are not told apart."),
}
