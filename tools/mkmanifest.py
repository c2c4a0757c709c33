#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json."""
import json, os
TECH = {
 "C01": "TLA+ model of the operators (SafeOps), TLC validates recorded evaluations of the real operators",
 "C02": "TLA+ model of justified errors (SafeOps), TLC validates recorded outcomes of the real operators",
 "C05": "TLC validates recorded expression values against the recorded static ranges (OpsTrace)",
 "C06": "TLA+ model of C++/automatic/cpp<> promotion (Promotion), TLC validates recorded decltype's",
 "C07": "TLA+ model of comparison (SafeOps/Promotion), TLC validates recorded comparisons",
 "C09": "TLA+ model of shifts (Checked/SafeOps), TLC validates recorded shifts",
 "C10": "TLA+ model of bitwise operators (SafeOps), TLC validates recorded evaluations",
}
NOTE = {}
DEFNOTE = ("Trace validation of the real, freshly compiled library against an explicit TLA+ specification over a seeded, boundary-aimed "
           "sample of operand types, declared ranges, policies and values (exhaustive where stated in DESIGN.md). Assumes LP64, "
           "two's complement, g++ 13; trusts TLC and the recorder in harness/.")
TECH.update({k: v[0] for k, v in {}.items()})
try:
    from manifest_more import TECH2, NOTE2
    TECH.update(TECH2); NOTE.update(NOTE2)
except ImportError: pass
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
checks = [{"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
           "technique": TECH[i], "level": "model_checking", "level_note": NOTE.get(i, DEFNOTE)} for i in ids if i in TECH]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "not_applicable": [{"property": i, "reason": "check not built yet"} for i in ids if i not in TECH],
     "notes": "No hooks in /repo: the public interface exposes everything the specification observes. fix: commits are listed in known_findings.json."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
