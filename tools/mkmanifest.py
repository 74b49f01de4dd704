"""Writes MANIFEST.json from runs.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from runs import CHECKS
try:
    from runs import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "none", "enable": "none", "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "Each check compiles /repo's current source with the property's harnesses to LLVM IR, executes the IR symbolically, lets Z3 decide every branch and assertion, and replays counterexamples and sampled paths on the natively compiled crate."}
for p in props:
    if p in CHECKS:
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py " + p, "evidence_file": "evidence/%s.json" % p,
                            "technique": "bounded symbolic execution of the crate's LLVM IR with Z3 deciding path feasibility and assertions; counterexamples replayed natively",
                            "level": "model_checking",
                            "level_note": CHECKS[p].get("note", "Exhaustive within the bounds listed per run in the evidence; nothing is claimed beyond them.")})
    elif p in NOT_APPLICABLE:
        m["not_applicable"].append({"property": p, "reason": NOT_APPLICABLE[p]})
    else:
        m["not_applicable"].append({"property": p, "reason": "check under construction"})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
