"""Command line of the checks."""

import argparse
import json
import os
import sys
import time

from . import props, runner


def load_level():
    path = os.path.join(runner.VERIF, "MANIFEST.json")
    try:
        with open(path) as f:
            return {c["property"]: c["level"] for c in json.load(f)["checks"]}
    except (OSError, ValueError, KeyError):
        return {}


def known_findings(prop):
    """Return the open known findings of this property (there are none unless
    the file lists them; entries starting with "fixed:" suppress nothing)."""
    result = []
    try:
        with open(os.path.join(runner.VERIF, "known_findings.jsonl")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("{"):
                    d = json.loads(line)
                    if d["property"] == prop and d.get("status") == "open":
                        result.append(d)
    except OSError:
        pass
    return result


def show_findings(prop):
    """Run the plan of every open known finding, and say so if it (still) fails.

    These plans use input that the search never draws, so no violation found by
    the search is ever attributed to a known finding.
    """
    for f in known_findings(prop):
        r = runner.run_one(dict(workload=f["workload"], checks=f["checks"], plan=f["plan"]), True, runner.RETRY_LIMIT)
        if r["v"] and r["v"]["kind"] == f["kind"]:
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))


def cmd_replay(path):
    with open(path) as f:
        rec = json.load(f)
    runner.setup(props.modules(rec["property"]))
    job = dict(workload=rec["workload"], checks=rec["checks"], plan=rec["plan"])
    r = runner.run_one(job, True, runner.RETRY_LIMIT)
    for line in r.get("trace", [])[-60:]:
        print(line)
    if r["v"]:
        print("violation:", r["v"]["kind"], "-", r["v"]["message"][:2000])
        print("digest:", r.get("digest"), "recorded:", rec["digest"],
              "(identical)" if r.get("digest") == rec["digest"] else "(DIFFERENT)")
        print("VIOLATION property=%s replay=%s" % (rec["property"], path))
        return 1
    print("not reproduced")
    return 0


def cmd_run(prop, number, base):
    runner.setup(props.modules(prop))
    job = runner.make_job(prop, props.PROPS[prop], base, number)
    job["plan"]["trace"] = True
    print(json.dumps(job["plan"])[:3000])
    r = runner.run_one(job, True, runner.RETRY_LIMIT)
    for line in r.get("trace", [])[-150:]:
        print(line[:300])
    print({k: r.get(k) for k in ("v", "steps", "sw", "digest", "ilv", "counts", "outcome")})
    return 1 if r["v"] else 0


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("number", nargs="?", type=int)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--runs", type=int)
    ap.add_argument("--procs", type=int, default=8)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--wall", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--run", action="store_true")
    ap.add_argument("--digests", type=int, help="print the digests of the first N runs (self test)")
    ap.add_argument("--no-minimise", action="store_true")
    a = ap.parse_args(argv)
    if a.replay:
        return cmd_replay(a.replay)
    prop = a.property
    spec = props.PROPS[prop]
    if a.run:
        return cmd_run(prop, a.number, a.seed)
    t0 = time.time()
    runner.setup(props.modules(prop))
    tsetup = time.time() - t0
    if a.digests:
        jobs = [runner.make_job(prop, spec, a.seed, i) for i in range(a.digests)]
        for r in runner.run_batch(jobs, a.procs):
            print(r.get("digest"), r.get("ilv"), r.get("steps"), r.get("sw"))
        return 0
    count = a.runs or spec[a.tier]
    wall = a.wall or (420 if a.tier == "quick" else 3000)
    total, found = runner.search(prop, spec, a.seed, count, a.procs, wall)

    # the first runs once more, in other processes: must be identical
    nsame = min(32, count)
    jobs = [runner.make_job(prop, spec, a.seed, i) for i in range(nsame)]
    code = 0
    violations = 0
    reported = []
    if not found:
        r1 = runner.run_batch(jobs, a.procs)
        r2 = runner.run_batch(jobs, max(1, a.procs // 2))
        same = sum(x is not None and y is not None and x.get("digest") == y.get("digest") and
                   x.get("ilv") == y.get("ilv") for x, y in zip(r1, r2))
    else:
        same = None
    harness = [f for f in found if f[1]["v"]["kind"] in ("harness-error", "harness")]
    real = [f for f in found if f not in harness]
    if real:
        i, r = real[0]
        job = runner.make_job(prop, spec, a.seed, i)
        best, bres = job, r
        if not a.no_minimise:
            again = runner.run_one(job, True)
            if again["v"] and again["v"]["kind"] == r["v"]["kind"]:
                best, bres = runner.minimise(job, again, 60 if a.tier == "quick" else 200, a.procs)
        path, rec = runner.write_replay(prop, best, bres, dict(run=i, seed=a.seed, tier=a.tier))
        v = rec["violation"]
        print("run %d (base seed %d): %s: %s" % (i, a.seed, v["kind"], v["message"][:1500]))
        print("minimised: %s" % json.dumps({k: x for k, x in rec["plan"].items() if k != "trace"})[:1500])
        violations = 1
        reported.append(dict(run=i, kind=v["kind"], message=v["message"][:500], replay=path))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        code = 1
    elif harness:
        print("harness error in run %d: %s" % (harness[0][0], harness[0][1]["v"]["message"][-2500:]), file=sys.stderr)
        code = 2

    show_findings(prop)

    samples = []
    for i in range(min(3, count)):
        p = dict(jobs[i]["plan"])
        samples.append(dict(run=i, workload=jobs[i]["workload"], plan=json.dumps(p)[:1200]))
    wall_s = time.time() - t0
    faults = {k[6:]: v for k, v in sorted(total["counts"].items()) if k.startswith("fault:")}
    evidence = dict(
        property=prop, tier=a.tier, seed=a.seed, level=load_level().get(prop, "exploration"),
        coverage=dict(
            evaluations=total["n"],
            distinct_nontrivial=total["nontrivial"],
            rule="One evaluation is one simulated run: a seeded plan (texts, operations, faults) executed under one "
                 "seeded schedule. It is non-trivial when at least one preemption or injected fault occurred; "
                 "distinct by the hash of the event history plus the hash of the sequence of preemption points "
                 "(task, function, line or instruction, next task).",
            samples=samples,
            simulated_runs=total["n"],
            runs_requested=count,
            runs_per_hour=int(total["n"] / max(total["wall"], 0.001) * 3600),
            distinct_interleavings=total["ilv"],
            interleaving_measure="hash over every preemption: (from task, to task, function, line/instruction)",
            preemptions_and_switches=total["sw"],
            simulated_steps=total["steps"],
            simulated_seconds=round(total["time"], 3),
            faults_injected=faults,
            fault_total=total["fired"],
            runs_with_faults=total["withfault"],
            operations={k: v for k, v in sorted(total["counts"].items()) if not k.startswith("fault:")},
            outcomes=total["outcomes"],
            determinism_checked=nsame if same is not None else 0,
            determinism_identical=same,
            setup_s=round(tsetup, 2),
            components=spec["components"],
            reported=reported,
        ),
        assumptions=spec["assumptions"],
        wall_s=round(wall_s, 2),
        violations=violations,
    )
    d = os.path.join(runner.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print("%s %s: %d runs, %d distinct interleavings, %d faults, %.1f s, exit %d" % (
        prop, a.tier, total["n"], total["ilv"], total["fired"], wall_s, code))
    return code
