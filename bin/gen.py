#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS, NOT_APPLICABLE
with open(f"{V}/properties.jsonl", "w") as f:
    for k, c in list(CHECKS.items()) + [(n["id"], n) for n in NOT_APPLICABLE]:
        f.write(json.dumps(dict(id=k, title=c["title"], statement=c["statement"], quantifier=dict(over=c["over"], text=c["quant"]),
            why_tests_cant=c["why"], anchors=dict(files=c["files"], mechanism=[dict(name=n, where=w) for n, w in c["mech"]],
            **(dict(observe_at=c["observe"]) if c.get("observe") else {})))) + "\n")
checks = []
for k, c in CHECKS.items():
    checks.append(dict(property=k, quick_cmd=f"python3 bin/vp.py check {k}", thorough_cmd=f"VERIF_TIER=thorough python3 bin/vp.py check {k}",
        evidence_file=f"evidence/{k}.json", technique=c["tech"], level=c["level"], level_note=c["note"]))
m = dict(version=1, setup_cmd="python3 bin/vp.py setup", hooks=dict(guard="TRIDENT_VERIF", enable="bin/vpbuild.py compiles every source with -DTRIDENT_VERIF=1", source_commits=["3b680a1"]),  checks=checks, not_applicable=[dict(property=n["id"], reason=n["reason"]) for n in NOT_APPLICABLE],
    notes="See DESIGN.md. Checks build /repo's working tree into /verif/_build (content addressed) and run harnesses in scratch directories.")
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
