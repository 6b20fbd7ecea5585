#!/usr/bin/env python3
"""write properties.jsonl and MANIFEST.json from tools/props.py and harness/table.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.props import PROPS
from harness.table import PROPS as HAVE
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None},
        }, ensure_ascii=False) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 check.py --build",
    "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo's sources as they are", "source_commits": []},
    "checks": [{
        "property": p["id"],
        "quick_cmd": "python3 check.py %s quick" % p["id"],
        "thorough_cmd": "python3 check.py %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "property-based testing: " + p["tech"],
        "level": "exploration",
        "level_note": p["note"] or "Randomised search with a fixed seed and shrinking; a pass means no counterexample among the generated cases (counts in the evidence file), not absence. Trusts the reference model in the harness, g++ and AddressSanitizer.",
    } for p in PROPS if p["id"] in HAVE],
    "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in PROPS if p["id"] not in HAVE],
}
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
