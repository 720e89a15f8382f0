#!/usr/bin/env python3
"""Regenerates MANIFEST.json from specs.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import specs
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in specs.PROPS:
        s = specs.PROPS[i]
        m["checks"].append({
            "property": i, "quick_cmd": "python3 /verif/check.py %s quick" % i, "thorough_cmd": "python3 /verif/check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": "symbolic execution of LLVM IR of the real code, z3 decides every branch and assertion",
            "level": "model_checking",
            "level_note": "Bounded: " + (s["bounds"] if isinstance(s["bounds"], str) else s["bounds"]["quick"]) + ". Outside: " + s.get("outside", "-") +
            " Trusted: clang 18 IR generation, the executor's memory model (8-byte pointers, one object per allocation), z3, the C-library models in harness/rt; "
            "every counterexample is replayed on a native ASan build before it is reported."})
    else:
        m["not_applicable"].append({"property": i, "reason": specs.NOT_APPLICABLE.get(i, "no check built yet") if hasattr(specs, "NOT_APPLICABLE") else "no check built yet"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
