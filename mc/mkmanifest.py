"""Rewrites MANIFEST.json from the registry of checks and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 mc/driver.py --selftest", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        m["checks"].append(dict(property=i, quick_cmd=f"python3 mc/driver.py {i} --tier quick",
                                thorough_cmd=f"python3 mc/driver.py {i} --tier thorough",
                                technique=checks.TECHNIQUE.get(i, "explicit-state exhaustive exploration of the real headers against a reference model"),
                                level="model_checking",
                                level_note=checks.NOTE.get(i, "every point of the bounded space stated in the evidence is executed on code compiled from /repo and compared with the model; values and widths outside of the bounds are not covered")))
    else:
        m["not_applicable"].append(dict(property=i, reason=checks.NOT_APPLICABLE.get(i, "check not built yet")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
