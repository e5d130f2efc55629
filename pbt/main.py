"""Runs the check of one property: python -m pbt.main C01"""
import importlib
import json
import os
import resource
import sys
import time
import warnings

warnings.filterwarnings("ignore")

from pbt import engine

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GB = 1 << 30


def load(pid):
    for name in sorted(os.listdir(os.path.join(VERIF, "checks"))):
        if name.lower().startswith(pid.lower() + "_") and name.endswith(".py"):
            return importlib.import_module("checks." + name[:-3])
    raise SystemExit("no check for " + pid)


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        data = json.load(f)
    return [k for k in data["findings"] if k["property"] == pid]


def replay_known(mod, pid, timeout):
    """Runs the recorded input of each known finding; prints it if it still fails."""
    still = []
    for k in known_findings(pid):
        if k.get("status") != "known":
            continue

        def fn(d, code=k["repro"]):
            ns = {}
            exec(compile(code, "<known finding>", "exec"), ns)

        status, msg, _c, _n = engine.isolated(fn, [], timeout)
        if status in engine.FAILS:
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, k["id"], k["what"]))
            still.append(k["id"])
    return still


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--replay" in argv:
        return replay(pid, argv[argv.index("--replay") + 1])
    t0 = time.monotonic()
    mod = load(pid)
    counts = int(os.environ.get("VERIF_CASES") or mod.COUNTS[tier])
    soft = getattr(mod, "SOFT", {}).get(tier, 420 if tier == "quick" else 3600)
    soft = float(os.environ.get("VERIF_SOFT") or soft)
    as_limit = getattr(mod, "AS_LIMIT", 8 * GB)
    if "libasan" in os.environ.get("LD_PRELOAD", ""):
        as_limit = None
    only = os.environ.get("VERIF_SUB")
    subs = [s for s in mod.SUBS if not only or s[0] in only.split(",")]
    init = getattr(mod, "init", None)
    if hasattr(mod, "prepare"):
        mod.prepare()
    still = replay_known(mod, pid, 60)
    sys.stdout.flush()
    res = engine.run(pid, subs, counts, seed, soft, nworkers=int(os.environ.get("VERIF_WORKERS", "8")),
                     hang_s=getattr(mod, "HANG", 60), as_limit=as_limit, init=init)
    m = res.merged
    for key, n, best, msg, _c, notes in res.collected:
        print("=== %d x %s" % (n, key[0]))
        for k, v in notes.items():
            print("    %s: %s" % (k, v[:500]))
        keep = [x for x in msg.splitlines() if not x.strip().startswith(("fn(d)", "Traceback", "^", "~", "(http"))
                and "/pbt/engine.py" not in x and x.strip()]
        print("    " + "\n    ".join(keep)[-900:])
    coverage = {
        "evaluations": m["evaluations"],
        "distinct_nontrivial": res.nontrivial,
        "rule": mod.RULE,
        "samples": m["samples"][:12],
        "planned": res.plan[-1][1],
        "rejected_by_generator": m["rejected"],
        "excluded_as_known_finding": dict(m["excluded"]),
        "known_findings_still_failing": still,
        "per_check": dict(m["per_sub"]),
        "per_check_distinct_nontrivial": dict(m["per_sub_nontrivial"]),
        "classes": dict(sorted(m["labels"].items(), key=lambda kv: -kv[1])[:80]),
        "completed_plan": bool(res.finished),
        "not_reproduced": res.unreproduced,
    }
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": coverage,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": 1 if res.failure else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rc = 0
    if res.failure:
        f = res.failure
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", "replay", "%s-%s-%d.json" % (pid, f["sub"], f["idx"]))
        f["property"] = pid
        f["seed"] = seed
        with open(path, "w") as out:
            json.dump(f, out, indent=1)
        print("check %s failed (%s) on the reduced case:" % (f["sub"], f["kind"]))
        for k, v in f["notes"].items():
            print("    %s: %s" % (k, v))
        print("    " + f["message"].replace("\n", "\n    ")[:3000])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        ev["coverage"]["failure"] = f
        rc = 1
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as out:
        json.dump(ev, out, indent=1, default=str)
    print("%s: %d cases, %d distinct non-trivial, %d rejected, %d excluded, %.1f s%s" % (
        pid, m["evaluations"], res.nontrivial, m["rejected"], sum(m["excluded"].values()),
        time.monotonic() - t0, "" if res.finished or res.failure else " (time budget reached)"))
    if os.environ.get("VERIF_DEBUG"):
        print(json.dumps(coverage["classes"], indent=1))
        print(coverage["per_check"], coverage["per_check_distinct_nontrivial"], coverage["excluded_as_known_finding"])
    if res.unreproduced:
        print("not reproduced:", json.dumps(res.unreproduced)[:1500])
    return rc


def replay(pid, path):
    with open(path) as f:
        data = json.load(f)
    mod = load(pid)
    if hasattr(mod, "prepare"):
        mod.prepare()
    if getattr(mod, "init", None):
        mod.init()
    fn = dict((s[0], s[2]) for s in mod.SUBS)[data["sub"]]
    status, msg, _c, notes = engine.isolated(fn, data["choices"], 120)
    for k, v in notes.items():
        print("%s: %s" % (k, v))
    print(status, msg)
    if status in engine.FAILS:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
