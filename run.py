#!/usr/bin/env python3
"""Runs the check of one property.

    run.py C01 [--tier quick|thorough] [--seed N] [--scale X] [--only SUBPROP]
    run.py C01 --replay FILE

Exit 0: the property held on everything generated.  Exit 1 together with a line
"VIOLATION property=<id> replay=<path>": it is broken.  Exit 2: the check could
not be run (it does not build, for example).
"""
import argparse
import json
import os
import subprocess
import sys
import time

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "pbt"))
import vbuild  # noqa: E402
from checks import CHECKS  # noqa: E402

REPLAYS = os.path.join(VERIF, "replays")


def part_cmd(part, bins):
    if part["kind"] == "cpp":
        return [bins[part["harness"]]]
    return [part.get("python", "python3-vt"), "-B", os.path.join(VERIF, "pychecks", part["script"])]


def env_for(part):
    e = dict(os.environ, LANG="C.UTF-8", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
             OMP_NUM_THREADS="1", VERIF_REPO=vbuild.REPO)
    e.pop("PYTHONPATH", None)
    return e


def known_findings():
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            return json.load(f)["findings"]
    except FileNotFoundError:
        return []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--only", default="")
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--budget", type=float, default=0)
    ap.add_argument("--replay")
    a = ap.parse_args()
    t0 = time.time()
    chk = CHECKS[a.pid]
    parts = chk["parts"]
    harnesses = sorted({p["harness"] for p in parts if p["kind"] == "cpp"})
    harnesses += [h for p in parts for h in p.get("needs", [])]
    bins = {}
    try:
        if harnesses:
            bins = vbuild.build(harnesses)
    except vbuild.BuildError as e:
        print(f"ERROR: the harness of {a.pid} does not build against the current tree\n{e}")
        return 2
    t_build = time.time() - t0

    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        part = parts[rep["part"]]
        tmp = os.path.join(vbuild.BUILD, f"replay.{os.getpid()}")
        with open(tmp, "w") as f:
            f.write(rep["name"] + "\n" + " ".join(map(str, rep["choices"])) + "\n" + json.dumps(rep.get("data")) + "\n")
        r = subprocess.run([*part_cmd(part, bins), "--pid", a.pid, "--replay", tmp], env=env_for(part))
        os.unlink(tmp)
        return 1 if r.returncode == 1 else 0

    budget = a.budget or (420 if a.tier == "quick" else 6000)
    results, errors = [], []
    for i, part in enumerate(parts):
        out = os.path.join(vbuild.BUILD, f"result.{a.pid}.{i}.{os.getpid()}.json")
        cmd = [*part_cmd(part, bins), "--pid", a.pid, "--seed", str(a.seed), "--scale", str(a.scale),
               "--workers", str(a.workers), "--budget", str(max(30, budget - (time.time() - t0 - t_build))), "--out", out]
        if a.only:
            cmd += ["--only", a.only]
        if a.tier == "thorough":
            cmd.append("--thorough")
        r = subprocess.run(cmd, env=env_for(part), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        try:
            with open(out) as f:
                res = json.load(f)
            os.unlink(out)
        except (OSError, ValueError):
            if a.only and "no property" in r.stdout:
                continue
            errors.append(f"part {i} of {a.pid} gave no result (exit {r.returncode}): {r.stdout[-3000:]}")
            continue
        res["part"] = i
        results.append(res)

    # Confirmed failures, and those listed as known findings
    kf = {f["subprop"]: f for f in known_findings() if f["property"] == a.pid}
    violations = []
    for res in results:
        for fl in res["failures"]:
            if fl["name"] in kf:
                print(f"KNOWN-FINDING: property={a.pid} {kf[fl['name']]['what']}")
                continue
            os.makedirs(REPLAYS, exist_ok=True)
            path = os.path.join(REPLAYS, f"{a.pid}-{fl['name']}-{a.seed}.json")
            with open(path, "w") as f:
                json.dump({"property": a.pid, "part": res["part"], **fl}, f, indent=1)
            violations.append((fl, path))
        for u in res.get("unconfirmed", []):
            print(f"NOTE: unconfirmed (not reproducible) failure: {u[:500]}")

    subs = [(res, p) for res in results for p in res["props"]]
    samples = []
    for _, p in subs:
        for s in p["samples"][:2]:
            if len(samples) < 24:
                samples.append({"check": p["name"], "case": s[:900]})
    ev = {
        "property": a.pid,
        "tier": a.tier,
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(p["cases"] for _, p in subs),
            "distinct_nontrivial": sum(p["distinct_nontrivial"] for _, p in subs),
            "rule": "; ".join(f"{p['name']}: {p['rule']}" for _, p in subs if not p["name"].startswith("kf_")),
            "samples": samples or ["none"],
            "per_check": {
                p["name"]: {k: p[k] for k in ("planned", "cases", "discarded", "nontrivial", "distinct_nontrivial", "labels") if k in p}
                for _, p in subs
            },
            "time_budget_hit": any(res.get("timed_out") for res, _ in subs),
            "unconfirmed": [u for res in results for u in res.get("unconfirmed", [])],
        },
        "assumptions": chk.get("assumptions", []),
        "violations": len(violations),
        "wall_s": round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{a.pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    cov = ev["coverage"]
    print(f"{a.pid} {a.tier} seed={a.seed}: {cov['evaluations']} cases, {cov['distinct_nontrivial']} distinct non-trivial, "
          f"build {t_build:.1f} s, total {ev['wall_s']:.1f} s" + (" (time budget hit)" if cov["time_budget_hit"] else ""))
    for fl, path in violations:
        print(f"--- {fl['name']}: {fl['kind']}: {fl['msg'][:1500]}")
        print((fl.get("desc") or "")[:3000])
        print(f"VIOLATION property={a.pid} replay={path}")
    if violations:
        return 1
    if errors:
        print("ERROR: " + "\n".join(errors))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
