"""Worker process: runs a list of subchecks of one property on one backend.

argv: property-id backend tier seed out.json sub1,sub2,...
or:   property-id backend --replay file
"""
import importlib
import json
import os
import sys
import warnings

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, "/repo")
warnings.simplefilter("ignore")

from vf import core  # noqa: E402


def load(pid):
    import gpmp

    f = os.path.abspath(gpmp.__file__)
    if not f.startswith("/repo/"):
        raise RuntimeError(f"gpmp imported from {f}, not from /repo")
    import numpy as np

    np.seterr(all="ignore")
    return importlib.import_module(f"props.{pid.lower()}").PROP


def main():
    pid, backend = sys.argv[1], sys.argv[2]
    prop = load(pid)
    if sys.argv[3] == "--replay":
        data = json.load(open(sys.argv[4]))
        sub = [s for s in prop.checks if s.name == data["subcheck"]][0]
        try:
            core.run_case(sub, data["case"], core.Ctx(backend, "quick", sub))
        except core.Violation as v:
            print("REPLAY: violation:", v)
            return 3
        print("REPLAY: holds")
        return 0
    tier, seed, out, names = sys.argv[3], sys.argv[4], sys.argv[5], sys.argv[6]
    known = json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
    results = []
    for name in names.split(","):
        sub = [s for s in prop.checks if s.name == name][0]
        results.append(core.run_subcheck(pid, sub, backend, tier, seed, known))
        with open(out, "w") as fh:
            json.dump(results, fh)
        if results[-1]["violation"]:
            break
    return 0


if __name__ == "__main__":
    sys.exit(main())
