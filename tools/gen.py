import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P, VERIF

NA = {}
out = []
for p in P:
    out.append(json.dumps({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]],
                    "observe_at": p["observe"], "hook_needed": None}}))
    assert len(p["title"]) <= 80, p["title"]
    n = p["statement"].count(". ")
    assert n <= 2, (p["id"], n)
open(os.path.join(VERIF, "properties.jsonl"), "w").write("\n".join(out) + "\n")
man = {"version": 1, "setup_cmd": "python3 run.py --selftest",
       "checks": [{"property": p["id"], "quick_cmd": "python3 run.py %s" % p["id"], "thorough_cmd": "env VERIF_TIER=thorough python3 run.py %s" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration",
                   "level_note": p["note"]} for p in P if os.path.exists(os.path.join(VERIF, "rv", "checks", p["id"] + ".py"))],
       "not_applicable": [{"property": p["id"], "reason": "check not built"} for p in P
                          if not os.path.exists(os.path.join(VERIF, "rv", "checks", p["id"] + ".py"))],
       "notes": "Monitors observe the public API from outside, so no hooks were added to /repo. run.py re-executes itself with the interpreter that can import FIAT/gem, importing finat from /repo's working tree."}
json.dump(man, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
