#!/usr/bin/env python3
"""merge.py ID PART...: adds what the other parts of a check covered to its evidence file."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, parts = sys.argv[1], sys.argv[2:]
main = f"{ROOT}/evidence/{i}.json"
e = json.load(open(main))
for p in parts:
    f = f"{ROOT}/evidence/{i}.{p}.json"
    x = json.load(open(f))
    e["coverage"].setdefault("other_runs", {})[p] = {
        k: x["coverage"][k] for k in ("evaluations", "distinct_nontrivial", "observed", "samples", "workers", "truncated") if k in x["coverage"]
    }
    e["wall_s"] += x["wall_s"]
    e["violations"] = e.get("violations", 0) + x.get("violations", 0)
    os.remove(f)
json.dump(e, open(main, "w"), indent=2)
