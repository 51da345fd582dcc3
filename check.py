"""Check of one property: python check.py C01 [--replay FILE].

Exit 0: the property held in all simulated runs. Exit 1 and a line VIOLATION:
it does not hold. Anything else: the check itself failed."""

import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = "/opt/venv/bin/python"
if os.path.exists(PYTHON) and os.path.realpath(sys.prefix) != "/opt/venv":
    os.execv(PYTHON, [PYTHON] + sys.argv)
sys.path.insert(0, HERE)

from hvsim import engine  # noqa: E402


def main():
    prop = sys.argv[1]
    if "--replay" in sys.argv:
        path = sys.argv[sys.argv.index("--replay") + 1]
        with open(path) as f:
            data = json.load(f)
        if "hash_seeds" in data:
            label = engine.replay_cross(path, data)
            print("recorded:", data["result"])
            print("now:      differs in", label)
            return 1 if label else 0
        data, result = engine.replay(path)
        print("\n".join(result.trace or []))
        print("recorded:", data["result"])
        print("now:     ", result.violation or result.error)
        same = result.violation == data["result"] and result.digest == data["digest"]
        print("reproduced exactly" if same else "NOT reproduced exactly")
        return 1 if result.violation else (2 if result.error else 0)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    code, lines = engine.check(prop, tier, seed)
    for line in lines:
        print(line, flush=True)
    return code


if __name__ == "__main__":
    sys.exit(main())
