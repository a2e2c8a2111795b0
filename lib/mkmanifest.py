"""Rewrites MANIFEST.json from checks/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/checks")
from registry import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for i in ids:
    if i not in CHECKS: continue
    c = CHECKS[i]
    checks.append({"property": i, "quick_cmd": "python3 /verif/verify.py %s --tier quick" % i, "thorough_cmd": "python3 /verif/verify.py %s --tier thorough" % i,
      "evidence_file": "evidence/%s.json" % i, "technique": c.get("technique", "stateless model checking: exhaustive bounded enumeration of executions of the real code against a reference model"),
      "level": c["level"], "level_note": c.get("note", "Exhaustive within the bounds stated in DESIGN.md; values outside the alphabet are not covered.")})
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "check under construction")} for i in ids if i not in CHECKS]
m = {"version": 1, "setup_cmd": "python3 /verif/lib/setup_check.py", "hooks": {"guard": "none", "enable": "no hooks are used; the checks build /repo as it is", "source_commits": []},
     "checks": checks, "not_applicable": na, "notes": "Every check builds /repo's working tree itself, in a scratch directory it removes."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
