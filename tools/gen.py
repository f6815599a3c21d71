#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and known_findings.json from the tables kept beside this file."""
import json
import subprocess
import sys
from pathlib import Path

sys.dont_write_bytecode = True
V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "tools"))
from props import PROPS, TECH  # noqa: E402
from findings import FIXED, KNOWN  # noqa: E402

P = "conda_recipe_manager/"
with (V / "properties.jsonl").open("w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": [P + x for x in p["files"]],
                        "mechanism": [{"name": n, "where": P + w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }) + "\n")
ids = [p["id"] for p in PROPS]
(V / "MANIFEST.json").write_text(json.dumps({
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python run.py --self-test",
    "hooks": {"guard": "none", "enable": "no hooks are needed: only public interfaces are driven", "source_commits": []},
    "checks": [{
        "property": i,
        "quick_cmd": f"/opt/venv/bin/python run.py {i} --tier quick",
        "thorough_cmd": f"/opt/venv/bin/python run.py {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": TECH[i][0], "level": "model_checking", "level_note": TECH[i][1],
    } for i in ids],
    "not_applicable": [],
    "notes": "TLA+ specifications in spec/, decided with TLC and bound to the code by replay and by trace validation.",
}, indent=1) + "\n")
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True, check=True).stdout
commits = {ln.split(" ", 1)[1]: ln.split(" ", 1)[0] for ln in log.splitlines()}
out = [{"id": k, "property": pr, "status": "known", "what": w, "input": inp} for k, pr, w, inp in KNOWN]
for pr, subj in FIXED:
    out.append({"id": f"fixed-{commits[subj]}", "property": pr, "status": "fixed", "commit": commits[subj],
                "what": f"fixed: property={pr} {commits[subj]} {subj[5:]}"})
missing = [s for s in commits if s.startswith("fix:") and s not in {x for _, x in FIXED}]
assert not missing, missing
(V / "known_findings.json").write_text(json.dumps(out, indent=1) + "\n")
