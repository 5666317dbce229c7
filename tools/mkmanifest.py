"""Writes /verif/MANIFEST.json from properties.jsonl and the property modules."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"

TECH = json.load(open(os.path.join(HERE, "tools", "technique.json")))

checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(HERE, "props", p.lower() + ".py")):
        checks.append(
            {
                "property": p,
                "quick_cmd": f"{PY} run.py {p} --tier quick",
                "thorough_cmd": f"{PY} run.py {p} --tier thorough",
                "evidence_file": f"evidence/{p}.json",
                "technique": "property-based testing (Hypothesis): " + TECH.get(p, "generated inputs against a reference model"),
                "level": "exploration",
                "level_note": "generated-input search with an explicit oracle; reports the number of cases and of distinct non-trivial ones, no exhaustiveness claimed",
            }
        )
    else:
        na.append({"property": p, "reason": "check not built yet"})

m = {
    "version": 1,
    "setup_cmd": f"{PY} tools/setup.py",
    "checks": checks,
    "hooks": {"guard": "", "enable": "", "source_commits": []},
    "not_applicable": na,
    "notes": "Every check imports gpmp from /repo's working tree in fresh worker processes, one per backend (numpy, torch). "
    "Failing cases are shrunk and written to evidence/replay/; replay with: run.py <PID> --replay <file>.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
print(len(checks), "checks;", len(na), "not applicable")
