#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props/meta.py"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H, H + "/ana"]
from props.meta import META, NA
import registry
with open(H + "/properties.jsonl", "w") as f:
    for p in META:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p.get("over", ["inputs", "configurations"]), "text": p["quant"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
checks, na = [], []
for p in META:
    if p["id"] in registry.PROPS:
        r = registry.PROPS[p["id"]]
        checks.append({"property": p["id"], "quick_cmd": f"python3-vt check.py {p['id']}", "thorough_cmd": f"python3-vt check.py {p['id']} --tier thorough",
                       "technique": r["technique"], "level": r["level"], "level_note": r["note"]})
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "not built yet")})
m = {"version": 1, "setup_cmd": "python3-vt ana/extract.py", "checks": checks, "not_applicable": na}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(META), "properties,", len(checks), "checks")
