#!/usr/bin/env python3
"""MANIFEST.json from props.py (claimed) and NOT_APPLICABLE below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for p in ids:
    if p in PROPS:
        c = PROPS[p]
        checks.append({"property": p, "quick_cmd": f"python3 tools/check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 tools/check.py {p}",
                       "technique": c["technique"], "level": c["level"], "level_note": c["note"], **({"theorems": c["theorems"]} if c.get("theorems") else {})})
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "not yet built: no contract for it is in place")} for p in ids if p not in PROPS]
m = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "hooks": {"guard": "cfg(rerecast_verif)", "enable": "RUSTFLAGS=\"--cfg rerecast_verif\" when the harness crate (path dependency on /repo/crates/rerecast) is built",
              "source_commits": ["8543e2c", "f6ad2d3"]},
    "checks": checks,
    "not_applicable": na,
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "claimed,", len(na), "not")
