#!/usr/bin/env python3
"""Run the check of one property:  run.py P01 [--tier quick|thorough] [--replay FILE]

Exit 0: held.  Exit 1: VIOLATION line printed.  Exit 2: the check itself failed.
"""
import argparse
import ast
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
WORKER = os.path.join(HERE, "vf", "worker.py")


def env_for(backend, scratch):
    e = dict(os.environ)
    e.update(
        GPMP_BACKEND=backend,
        MPLBACKEND="Agg",
        MPLCONFIGDIR=os.path.join(scratch, "mpl"),
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        GPMP_LOG_LEVEL="ERROR",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        TMPDIR=scratch,
        HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(scratch, "hyp"),
    )
    e.pop("GPMP_DTYPE", None)
    e.pop("PYTHONPATH", None)
    e.pop("PYTHONWARNINGS", None)
    return e


def plan(pid):
    """Ask a cheap subprocess-free parse for the subcheck list."""
    return subcheck_table(os.path.join(HERE, "props", pid.lower() + ".py"))


def subcheck_table(path):
    tree = ast.parse(open(path).read())
    out = []
    for node in ast.walk(tree):
        if not isinstance(node, ast.FunctionDef):
            continue
        for d in node.decorator_list:
            if (
                isinstance(d, ast.Call)
                and isinstance(d.func, ast.Attribute)
                and d.func.attr == "case"
            ):
                name = ast.literal_eval(d.args[0])
                kw = {k.arg: k.value for k in d.keywords}
                backends = (
                    ast.literal_eval(kw["backends"])
                    if "backends" in kw
                    else ("numpy", "torch")
                )
                out.append((node.lineno, name, tuple(backends)))
    return [(n, b) for _, n, b in sorted(out)]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "0"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--backend")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    if not re.fullmatch(r"[A-Z][0-9]{2,3}", a.pid) or a.tier not in ("quick", "thorough"):
        print("bad arguments", file=sys.stderr)
        return 2
    scratch = tempfile.mkdtemp(prefix="vf-" + a.pid + "-")
    try:
        return run(a, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(a, scratch):
    t0 = time.time()
    if a.replay:
        a.replay = os.path.abspath(a.replay)
        data = json.load(open(a.replay))
        p = subprocess.run(
            [PY, WORKER, a.pid, data["backend"], "--replay", a.replay],
            env=env_for(data["backend"], scratch),
            cwd=scratch,
        )
        if p.returncode == 3:
            print(f"VIOLATION property={a.pid} replay={a.replay}")
            return 1
        return 2 if p.returncode else 0

    table = plan(a.pid)
    if a.only:
        table = [(n, b) for n, b in table if n in a.only.split(",")]
    units = {"numpy": [], "torch": []}
    for n, bs in table:
        for b in bs:
            if not a.backend or a.backend == b:
                units[b].append(n)
    jobs = []
    per_backend = 4
    for b, names in units.items():
        k = min(per_backend, len(names))
        for i in range(k):
            grp = names[i::k]
            if grp:
                jobs.append((b, grp))
    procs = []
    limit = 420 if a.tier == "quick" else 860
    for i, (b, grp) in enumerate(jobs):
        out = os.path.join(scratch, f"out{i}.json")
        log = open(os.path.join(scratch, f"log{i}.txt"), "w+")
        p = subprocess.Popen(
            [PY, WORKER, a.pid, b, a.tier, a.seed, out, ",".join(grp)],
            env=env_for(b, scratch),
            cwd=scratch,
            stdout=log,
            stderr=subprocess.STDOUT,
        )
        procs.append((p, b, grp, out, log))
    errors, results = [], []
    for p, b, grp, out, log in procs:
        left = max(1.0, limit - (time.time() - t0))
        try:
            rc = p.wait(timeout=left)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = "timeout"
        got = []
        if os.path.exists(out):
            try:
                got = json.load(open(out))
            except ValueError:
                got = []
        results.extend(got)
        log.seek(0)
        txt = log.read()
        if a.verbose and txt:
            print(txt)
        stopped = any(r["violation"] for r in got)
        if rc != 0 or (len(got) < len(grp) and not stopped):
            errors.append(f"worker {b} {grp}: rc={rc}\n{txt[-3000:]}")
    for r in results:
        if r["error"]:
            errors.append(f"{r['subcheck']}/{r['backend']}: {r['error']}")

    prop_meta = load_meta(a.pid)
    violations = []
    rdir = os.path.join(HERE, "evidence", "replay")
    for r in results:
        if r["violation"]:
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f"{a.pid}-{r['subcheck']}-{r['backend']}.json")
            with open(path, "w") as fh:
                json.dump(
                    {
                        "property": a.pid,
                        "subcheck": r["subcheck"],
                        "backend": r["backend"],
                        "seed": a.seed,
                        "tier": a.tier,
                        "message": r["violation"]["message"],
                        "sig": r["violation"]["sig"],
                        "case": r["violation"]["case"],
                    },
                    fh,
                    indent=1,
                )
            violations.append((r, path))

    samples = []
    for k in range(3):
        for r in results:
            if len(r["samples"]) > k and len(samples) < 12:
                samples.append(r["samples"][k])
    ev = {
        "property": a.pid,
        "tier": a.tier,
        "seed": int(a.seed) if str(a.seed).lstrip("-").isdigit() else 0,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": sum(len(r["nontrivial"]) for r in results),
            "rule": prop_meta["rule"],
            "samples": samples,
            "per_subcheck": [
                {
                    "subcheck": r["subcheck"],
                    "backend": r["backend"],
                    "evaluations": r["evaluations"],
                    "distinct_nontrivial": len(r["nontrivial"]),
                    "tags": r["tags"],
                    "time_budget_hit": r["budget_hit"],
                    "wall_s": round(r["wall_s"], 2),
                }
                for r in results
            ],
            "violation_details": [
                {
                    "subcheck": r["subcheck"],
                    "backend": r["backend"],
                    "message": r["violation"]["message"],
                    "replay": os.path.relpath(p, HERE),
                }
                for r, p in violations
            ],
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
        "assumptions": prop_meta["assumptions"],
    }
    write_evidence(a.pid, ev)

    known_seen = sorted({k for r in results for k in r["known"]})
    for f in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]:
        if f["id"] in known_seen:
            print(f"KNOWN-FINDING: property={a.pid} {f['what']}")
    for r, p in violations:
        print(f"[{r['subcheck']}/{r['backend']}] {r['violation']['message']}")
        print(f"VIOLATION property={a.pid} replay={p}")
    print(
        f"{a.pid} tier={a.tier} seed={a.seed}: evaluations={ev['coverage']['evaluations']} "
        f"nontrivial={ev['coverage']['distinct_nontrivial']} violations={len(violations)} "
        f"errors={len(errors)} wall={ev['wall_s']}s"
    )
    for e in errors:
        print("CHECK-ERROR:", e, file=sys.stderr)
    if violations:
        return 1
    return 2 if errors else 0


def load_meta(pid):
    """Rule and assumptions are literals in Prop(...) in the property module."""
    tree = ast.parse(open(os.path.join(HERE, "props", pid.lower() + ".py")).read())
    for node in ast.walk(tree):
        if isinstance(node, ast.Call) and getattr(node.func, "id", "") == "Prop":
            kw = {k.arg: ast.literal_eval(k.value) for k in node.keywords}
            return {"rule": kw["rule"], "assumptions": list(kw.get("assumptions", []))}
    raise RuntimeError("no Prop in " + pid)


def write_evidence(pid, ev):
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f".{pid}.tmp")
    with open(tmp, "w") as fh:
        json.dump(ev, fh, indent=1)
    os.replace(tmp, os.path.join(d, pid + ".json"))


if __name__ == "__main__":
    sys.exit(main())
