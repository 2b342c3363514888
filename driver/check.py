#!/usr/bin/env python3
"""Decides one property: rebuilds the simulators from /repo's working tree, runs the property's seeded
searches, and writes evidence/<id>.json.

    python3 driver/check.py C07            (tier from VERIF_TIER, seed from VERIF_SEED)
    python3 driver/check.py C07 --tier thorough
"""
import json, os, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "driver"))
from plan import PLAN, RULE, RULE_GENERIC, RULE_SCALE, RULE_THREADS, ASSUME, ASSUME_THREADS, COMPONENTS, COMPONENTS_GENERIC, COMPONENTS_THREADS, THOROUGH_FACTOR  # noqa: E402


def fail(msg):
    print("check error: " + msg, file=sys.stderr)
    sys.exit(2)


def known(prop):
    """Entries of known-findings.txt: `finding: property=<id> key=<key> <what fails>`."""
    out = {}
    with open(os.path.join(V, "known-findings.txt")) as f:
        for line in f:
            w = line.strip().split(" ", 3)
            if len(w) == 4 and w[0] == "finding:" and w[1] == "property=" + prop:
                out[w[2].split("=", 1)[1]] = w[3]
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        fail("unknown tier " + tier)
    seed = int(os.environ.get("VERIF_SEED") or "1")
    jobs = os.cpu_count() or 4
    t0 = time.time()
    plan = PLAN[prop]
    parts = [p for p in plan if tier == "thorough" or not p.get("thorough_only")]
    builds = sorted({p["build"] for p in parts})
    if subprocess.run([os.path.join(V, "driver", "build.sh")] + builds).returncode != 0:
        fail("the tree does not build")
    built = time.time() - t0
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    findings = known(prop)
    reports, code, violations = [], 0, 0
    for i, p in enumerate(parts):
        secs = p.get("secs", 0) * (THOROUGH_FACTOR if tier == "thorough" else 1)
        binary = os.path.join(V, "target", p["build"], "debug", "tlthreads" if p["build"] == "threads" else "tlsim")
        out = os.path.join(V, "replays", "%s.%d.report.json" % (prop, i))
        if os.path.exists(out):
            os.remove(out)
        if p.get("history"):
            # A fixed history which is a recorded finding.
            r = subprocess.run([binary, "history", p["history"]], stdout=subprocess.PIPE, text=True)
            if r.returncode not in (0, 1):
                fail("history %s ended with %d" % (p["history"], r.returncode))
            fails = r.returncode == 1
            reports.append({"scenario": "history " + p["history"], "fails": fails, "output": r.stdout.strip().splitlines()[-1:]})
            if fails and p["history"] in findings:
                print("KNOWN-FINDING: property=%s %s" % (prop, findings[p["history"]]))
            elif fails:
                path = os.path.join(V, "replays", "%s-history-%s.json" % (prop, p["history"]))
                with open(path, "w") as f:
                    json.dump({"property": prop, "history": p["history"], "replay_cmd": "tlsim history " + p["history"],
                               "output": r.stdout.splitlines()}, f, indent=1)
                print(r.stdout.strip())
                print("VIOLATION property=%s replay=%s" % (prop, path))
                code, violations = 1, violations + 1
            continue
        cmd = [binary, "check", "--prop", prop, "--scenario", p["scenario"], "--focus", p.get("focus", prop),
               "--secs", str(secs), "--seed", str(seed), "--jobs", str(jobs),
               "--replay-dir", os.path.join(V, "replays"), "--out", out]
        sys.stdout.flush()
        r = subprocess.run(cmd)
        if r.returncode not in (0, 1):
            fail("%s ended with %d" % (" ".join(cmd), r.returncode))
        with open(out) as f:
            reports.append(json.load(f))
        os.remove(out)
        if r.returncode == 1:
            code, violations = 1, violations + 1
            break
    det = None
    if tier == "thorough":
        det = determinism(parts, seed)
    evidence(prop, tier, seed, reports, violations, time.time() - t0, built, det)
    sys.exit(code)


def determinism(parts, seed):
    """The same seeds, in two processes with different numbers of workers, must give the same executions."""
    res = []
    for b, sc in sorted({(p["build"], p["scenario"]) for p in parts if not p.get("history")}):
        binary = os.path.join(V, "target", b, "debug", "tlthreads" if b == "threads" else "tlsim")
        n = 4000 if b == "threads" else 4000
        outs = []
        for jobs in (3, 8):
            r = subprocess.run([binary, "fingerprints", "--runs", str(n), "--from", str(seed * 100000),
                                "--scenario", sc, "--jobs", str(jobs)], stdout=subprocess.PIPE, text=True)
            if r.returncode != 0:
                fail("fingerprints of %s/%s ended with %d" % (b, sc, r.returncode))
            outs.append(r.stdout)
        if outs[0] != outs[1] or len(outs[0].splitlines()) != n:
            fail("%s/%s is not deterministic" % (b, sc))
        res.append({"build": b, "scenario": sc, "seeds_run_twice": n, "workers": [3, 8], "equal": True})
    return res


def evidence(prop, tier, seed, reports, violations, wall, built, det):
    sims = [r for r in reports if "runs" in r]
    runs = sum(r["runs"] for r in sims)
    faults, probes = {}, {}
    for r in sims:
        for k, n in r["faults_injected"].items():
            faults[k] = faults.get(k, 0) + n
        for k, n in r["reach_probes"].items():
            probes[k] = probes.get(k, 0) + n
    swall = sum(r["wall_s"] for r in sims)
    kinds = {r["scenario"] if r["scenario"] in ("threads", "generic", "scale") else "lsp" for r in sims}
    th, ge, ls, sc = "threads" in kinds, "generic" in kinds, "lsp" in kinds, "scale" in kinds
    rule = " ".join([RULE] * ls + [RULE_GENERIC] * ge + [RULE_SCALE] * sc + [RULE_THREADS] * th)
    assume = ASSUME + ASSUME_THREADS * th
    comps = {k: COMPONENTS[k] * (ls or sc) + COMPONENTS_GENERIC[k] * ge + COMPONENTS_THREADS[k] * th for k in COMPONENTS}
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": sum(r["distinct_interleavings"] for r in sims),
        "rule": rule,
        "samples": [s for r in sims for s in r["samples"][:2]][:4],
        "runs_per_hour": int(runs / swall * 3600) if swall else 0,
        "seeds": "run i of a batch uses the seed FNV(batch seed, property, i); every run is one seed",
        "simulated_time": {
            "note": "tower-lsp reads no clock and sets no timer; simulated time is the sequence of recorded events",
            "events": sum(r["events"] for r in sims),
            "task_polls_or_scheduling_decisions": sum(r["polls"] for r in sims),
            "simulator_steps": sum(r["steps"] for r in sims),
        },
        "faults_injected": dict(sorted(faults.items())),
        "reach_probes": dict(sorted(probes.items())),
        "distinct_measure": "distinct fingerprints (hash over every event: polls, bytes moved, handler steps, messages) among the non-trivial runs",
        "components": comps,
        "scenarios": [{k: r[k] for k in r if k not in ("samples", "faults_injected", "reach_probes")} for r in reports],
        "runs_with_fault": {r["scenario"] + "/" + r["runtime"]: r["runs_with_fault"] for r in sims},
        "build_s": round(built, 2),
    }
    if det is not None:
        cov["determinism"] = det
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": assume, "wall_s": round(wall, 2), "violations": violations}
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


main()
