#!/usr/bin/env python3
import json, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from checks import CHECKS
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
commit = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif hook"], stdout=subprocess.PIPE).stdout.decode().split()
m = dict(version=1, setup_cmd="true", hooks=dict(guard="RS_VERIF_MAX_DELTA_CMD", enable="-DRS_VERIF_MAX_DELTA_CMD=16 in CMAKE_C_FLAGS (flavours scaled, scaleda, sanscaled, covscaled of checks.py)", source_commits=commit),
  checks=[dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i, technique=CHECKS[i]["technique"], level=CHECKS[i]["level"], level_note=CHECKS[i]["level_note"]) for i in ids if i in CHECKS],
  not_applicable=[dict(property=i, reason="no check") for i in ids if i not in CHECKS],
  notes="check.py builds /repo's working tree in a scratch directory of its own and runs harnesses over it; see DESIGN.md.")
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1); open(H + "/MANIFEST.json", "a").write("\n")
