#!/usr/bin/env python
"""check.py ID [quick|thorough]      decide one property on /repo
check.py replay FILE              run a recorded counterexample on the real code
check.py list                     the properties with a check"""
import json
import os
import sys
import tempfile
import shutil
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True


def setup():
    scratch = tempfile.mkdtemp(prefix="symx-")
    os.environ["MPLCONFIGDIR"] = scratch
    os.environ["MPLBACKEND"] = "Agg"
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    sys.path.insert(0, REPO)
    return scratch


def load(pid):
    import importlib
    import warnings
    warnings.simplefilter("ignore")
    import trikit
    assert os.path.realpath(trikit.__file__).startswith(os.path.realpath(REPO)), trikit.__file__
    return importlib.import_module("harness." + pid.lower())


def known(pid):
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    for line in open(p) if os.path.exists(p) else []:
        line = line.strip()
        if line.startswith("known: ") and ("property=%s " % pid) in line:
            out.append(line[len("known: "):])
    return out


def main():
    a = sys.argv[1:]
    if not a or a[0] == "list":
        print(__doc__)
        for f in sorted(os.listdir(os.path.join(ROOT, "harness"))):
            if f.startswith("c") and f.endswith(".py") and f[1:3].isdigit():
                print(f[:-3].upper())
        return 0
    scratch = setup()
    try:
        if a[0] == "replay":
            return replay(a[1])
        return decide(a[0].upper(), a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(path):
    d = json.load(open(path))
    mod = load(d["property"])
    from symx import api
    for tier in ("quick", "thorough"):
        for j in mod.jobs(tier):
            if j["name"] == d["job"]:
                r = api.run_conc(j["fn"], j.get("params", {}), d["inputs"], d.get("as_int", False))
                print(json.dumps({"inputs": d["inputs"], "fails": r["fails"], "exception": r["exc"]}, indent=1))
                return 1 if r["fails"] or r["exc"] else 0
    print("no such job")
    return 2


def decide(pid, tier):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    mod = load(pid)
    from symx import run
    budget = float(os.environ.get("SYMX_BUDGET", 0)) or (getattr(mod, "BUDGET", 240) if tier == "quick" else 700)
    r = run.run_check(mod, tier, seed, budget, nsym=int(os.environ.get("SYMX_WORKERS", "7")))
    tot = {k: sum(s[k] for s in r.stat) for k in r.stat[0] if k != "name"}
    os.makedirs(os.path.join(ROOT, "evidence", "replays"), exist_ok=True)
    for f in os.listdir(os.path.join(ROOT, "evidence", "replays")):
        if f.startswith(pid + "-"):
            os.remove(os.path.join(ROOT, "evidence", "replays", f))
    for line in known(pid):
        print("KNOWN-FINDING: " + line)
    vacuous = [s["name"] for s in r.stat if not s["obligations"]]
    cov = {
        "states": tot["paths"] - tot["infeasible"],
        "transitions": tot["decisions"],
        "traces_validated_against_impl": tot["agree"],
        "samples": r.samples or [{"note": "no completed path"}],
        "replays_on_real_code": tot["replays"],
        "obligations": tot["obligations"],
        "discharged": tot["discharged"],
        "inconclusive_obligations": tot["inconclusive"],
        "real_forks": tot["forks"],
        "solver_queries": tot["queries"],
        "solver_seconds": round(tot["solver_s"], 2),
        "solver_unknown": tot["unknown"],
        "unexplored_prefixes": tot["unexplored"] + tot["lost"],
        "paths_outside_encoding": tot["limit"] + tot["exception"],
        "exhaustive_within_bounds": tot["unexplored"] + tot["lost"] + tot["limit"] + tot["inconclusive"] == 0,
        "functions_encoded": r.fns,
        "bounds": {j["name"]: j.get("bounds", "") for j in r.jobs},
        "jobs": {s["name"]: {k: (round(v, 2) if isinstance(v, float) else v) for k, v in s.items() if v and k != "name"}
                 for s in r.stat},
        "outside_bounds": getattr(mod, "OUTSIDE", ""),
        "encoding_mismatches": r.mism[:5],
        "unconfirmed_counterexamples": r.unconf[:5],
        "notes": dict(r.notes.most_common(12)),
        "inconclusive": dict(r.incon.most_common(12)),
        "jobs_without_obligations": vacuous,
    }
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
          "level": "model_checking", "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUME", [])) + r.assumed + COMMON, "wall_s": round(time.time() - t0, 2),
          "violations": len(r.viol)}
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d paths, %d obligations (%d discharged, %d inconclusive), %d queries, %.1fs solver, "
          "%d replays (%d agree, %d mismatch), %d unexplored, %.1fs" % (
              pid, tier, cov["states"], tot["obligations"], tot["discharged"], tot["inconclusive"], tot["queries"],
              tot["solver_s"], tot["replays"], tot["agree"], len(r.mism), cov["unexplored_prefixes"],
              time.time() - t0))
    for n, c in r.notes.most_common(6):
        print("  note (%d) %s" % (c, n))
    for n, c in r.incon.most_common(4):
        print("  inconclusive (%d) %s" % (c, n))
    for m in r.mism[:3]:
        print("  encoding mismatch", str(m)[:600])
    for u in r.unconf[:3]:
        print("  unconfirmed", str(u)[:300])
    if vacuous:
        print("  no obligations:", vacuous)
    if not r.viol:
        return 0
    for n, v in enumerate(r.viol, 1):
        p = os.path.join(ROOT, "evidence", "replays", "%s-%d.json" % (pid, n))
        with open(p, "w") as f:
            json.dump(dict(v, property=pid, tier=tier), f, indent=1, default=str)
        what = v["exc"] or "; ".join("%s: got %s, expected %s" % tuple(x) for x in v["fails"][:2])
        print("  %s: %s" % (v["job"], str(what)[:400]))
        print("VIOLATION property=%s replay=%s" % (pid, p))
    return 1


COMMON = [
    "real arithmetic stands for floating point (replays compare with a relative tolerance of 1e-6)",
    "the interpreter, numpy, pandas and scipy run as they are: their object-dtype code carries the symbolic values; "
    "the numeric kernels without an object path (reductions, ranks, quantiles, cumulative sums) are stood in for by "
    "symx/shims.py and validated on every path by comparing the encoding's values with an unpatched replay",
]

if __name__ == "__main__":
    c = main()
    sys.stdout.flush()
    sys.exit(c)
