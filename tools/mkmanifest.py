#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the checks that exist (src/bin/cNN.rs).
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
exec(open(os.path.join(here, "levels.py")).read())
checks = []
for pid, (tech, level, note) in sorted(CHECKS.items()):
    checks.append({"property": pid, "quick_cmd": f"bash /verif/run.sh {pid} quick", "thorough_cmd": f"bash /verif/run.sh {pid} thorough",
                   "evidence_file": f"evidence/{pid}.json", "technique": tech, "level": level, "level_note": note})
m = {"version": 1, "setup_cmd": "bash /verif/run.sh setup",
     "hooks": {"guard": "none", "enable": "no hooks are needed: every check uses public interfaces (client feature `insecure`)", "source_commits": []},
     "checks": checks,
     "not_applicable": [{"property": p, "reason": r} for p, r in NOT_APPLICABLE],
     "notes": "Each check is one binary of /verif/harness built from /repo's working tree; replay a counterexample with: bash /verif/run.sh replay <file>."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks))
