"""Writes MANIFEST.json from properties.jsonl and the settings of the checks."""

import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
namespace = {}
with open(os.path.join(HERE, "hvsim/props/settings.py")) as f:
    exec(f.read(), namespace)
settings = namespace["SETTINGS"]

with open(os.path.join(HERE, "properties.jsonl")) as f:
    properties = [json.loads(line) for line in f if line.strip()]

checks, rest = [], []
for p in properties:
    pid = p["id"]
    if pid in settings:
        checks.append(
            {
                "property": pid,
                "quick_cmd": f"VERIF_TIER=quick python3 check.py {pid}",
                "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {pid}",
                "evidence_file": f"evidence/{pid}.json",
                "technique": "deterministic simulation with fault injection",
                "level": settings[pid]["level"],
                "level_note": settings[pid]["note"],
            }
        )
    elif pid.startswith("N"):
        rest.append(
            {
                "property": pid,
                "reason": "A pure function of its inputs: no schedule, fault, crash"
                " or history that a simulation could explore.",
            }
        )
    else:
        rest.append({"property": pid, "reason": "The check is not built yet."})

manifest = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -c 'import dill, multiprocess, numpy, pandas, stl'",
    "checks": checks,
    "not_applicable": rest,
    "notes": "The simulator replaces the seams of the library from outside, so the"
    " library needs no hooks. The checks import it from /repo/src.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
