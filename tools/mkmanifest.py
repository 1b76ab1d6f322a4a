"""Writes MANIFEST.json from the registered checks and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vsim.catalog import CHECKS, NOTES
NA = {
 "P19": "Pure functions of their arguments: the kernels have no schedule, clock, I/O, randomness, history or failure for a simulated execution to vary, so simulating them would only be random testing of inputs under another name.",
 "P20": "Pure functions of their arguments (two link matrices and a cut-off): nothing for a simulated schedule, fault or history to vary.",
}
props = [json.loads(l)["id"] for l in open(ROOT + "/properties.jsonl")]
checks = []
for p in props:
    if p in CHECKS:
        checks.append({"property": p, "quick_cmd": "./check %s --tier quick" % p,
                       "thorough_cmd": "./check %s --tier thorough" % p,
                       "technique": "deterministic simulation with fault injection: seeded search over %s" % NOTES[p][0],
                       "level": "exploration", "level_note": NOTES[p][1]})
na = [{"property": p, "reason": NA.get(p, "No check has been built for it yet.")} for p in props if p not in CHECKS]
json.dump({"version": 1, "setup_cmd": "./check setup", "checks": checks, "not_applicable": na,
           "notes": "Every check compiles the extension modules from /repo's working tree into a scratch directory, and imports the Python code from /repo. No hooks were added to /repo. './check replay FILE' reproduces a reported violation."},
          open(ROOT + "/MANIFEST.json", "w"), indent=1)
