#!/usr/bin/env python3
"""check.py PROPERTY            run the check of one property (VERIF_SEED, VERIF_TIER)
check.py --replay FILE          re-execute a replay file and print its trace
Exit 0: held on everything explored; 1: VIOLATION line printed; anything else: the check itself failed."""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable

# executions per tier; every property's budget is a fixed number of seeds, so that a run is a function of VERIF_SEED
BUDGET = json.load(open(os.path.join(HERE, "budgets.json")))


def env(hashseed="0"):
    e = dict(os.environ)
    e.update(PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=HERE, LANG="C.UTF-8", TZ="UTC", VERIF_REPO=REPO)
    e.pop("PYTHONASYNCIODEBUG", None)
    return e


def worker_cmd(prop, *args):
    return [PY, os.path.join(HERE, "dsim", "worker.py"), prop, *map(str, args)]


def run_worker(prop, *args, hashseed="0", timeout=600):
    p = subprocess.run(worker_cmd(prop, *args), env=env(hashseed), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=HERE)
    if p.returncode != 0:
        raise RuntimeError(f"worker failed ({p.returncode}): {p.stderr.decode(errors='replace')[-2000:]}")
    return json.loads(p.stdout.decode().strip().splitlines()[-1])


def load_known(prop):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path)).get("findings", []) if k["property"] == prop]


def replay(path):
    r = json.load(open(path))
    o = run_worker(r["property"], "--replay", os.path.abspath(path), "--trace")
    for line in o.get("trace") or []:
        print(line)
    same = o["digest"] == r["digest"]
    print(f"status={o['status']} kind={o['kind']} message={o['message']} digest={o['digest']} "
          f"{'(identical to the recorded execution)' if same else '(recorded: ' + r['digest'] + ')'}")
    if o["status"] == "violation":
        print(f"VIOLATION property={r['property']} replay={path}")
        return 1
    return 0 if o["status"] == "ok" else 3


def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    total = int(os.environ.get("VERIF_RUNS", BUDGET[prop][tier]))
    jobs = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))
    wall = float(os.environ.get("VERIF_WALL", 420 if tier == "quick" else 3000))
    known = load_known(prop)
    print(f"property={prop} tier={tier} seed={seed} executions={total} workers={jobs}", flush=True)
    procs = []
    for j in range(jobs):
        n = total // jobs + (1 if j < total % jobs else 0)
        if n == 0:
            continue
        args = ["--tier", tier, "--seed", seed, "--first", j, "--stride", jobs, "--count", n, "--wall", wall]
        if known:
            args += ["--known", json.dumps(known)]
        procs.append(subprocess.Popen(worker_cmd(prop, *args), env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=HERE))
    results = []
    failed = []
    for p in procs:
        try:
            out, err = p.communicate(timeout=max(5, wall + 120 - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
            failed.append("worker exceeded its wall-clock limit (an execution does not end)")
            continue
        if p.returncode != 0:
            failed.append(f"worker exit {p.returncode}: {err.decode(errors='replace')[-1500:]}")
            continue
        try:
            results.append(json.loads(out.decode().strip().splitlines()[-1]))
        except Exception as e:
            failed.append(f"unreadable worker output: {e}")
    violations = sorted((r["violation"] for r in results if r["violation"]), key=lambda v: v["index"])
    errors = [e for r in results for e in r["errors"]]
    # --- determinism sample: another process, another hash seed, one worker
    det = None
    if not violations and not failed and not errors:
        n = 12 if tier == "quick" else 60
        try:
            import random as _r
            a = run_worker(prop, "--digests", "--tier", tier, "--seed", seed, "--count", n, "--stride", 7)
            b = run_worker(prop, "--digests", "--tier", tier, "--seed", seed, "--count", n, "--stride", 7, hashseed="4321")
            det = dict(compared=n, different=sum(1 for x, y in zip(a["digests"], b["digests"]) if x != y))
        except Exception as e:
            det = dict(error=str(e)[:300])
    # --- report
    exit_code = 0
    reported = None
    for v in violations:
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        for key in ("min", None):
            src = v.get("min") if key else dict(plan=v["plan"], decisions=v["decisions"], kind=v["kind"], message=v["message"], digest=v["digest"])
            if not src:
                continue
            path = os.path.join(rdir, f"{prop}-s{seed}-i{v['index']}{'' if key else '-full'}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, seed=seed, index=v["index"], tier=tier, kind=src["kind"], message=src["message"], digest=src["digest"],
                               plan=src["plan"], decisions=src["decisions"]), f, indent=1)
            try:
                o = run_worker(prop, "--replay", path, timeout=120)
            except Exception as e:
                print("replay failed:", e)
                continue
            if o["status"] == "violation" and o["kind"] == src["kind"]:
                reported = (path, src, o["digest"] == src["digest"])
                break
        if reported:
            break
    if reported:
        path, src, same = reported
        print(f"seed={seed} kind={src['kind']}: {src['message']}")
        print(f"replayed in a fresh process: reproduced{', identical execution' if same else ''}")
        print(f"VIOLATION property={prop} replay={path}")
        exit_code = 1
    elif violations:
        print("a violation was seen but its replay did not reproduce it; the simulator does not control this execution")
        print(json.dumps({k: violations[0][k] for k in ("index", "kind", "message")}))
        exit_code = 3
    elif failed or errors:
        for f in failed:
            print("CHECK ERROR:", f)
        for e in errors[:3]:
            print("CHECK ERROR:", e)
        exit_code = 2
    hits = {}
    for r in results:
        for k, n in r["known_hits"].items():
            hits[k] = hits.get(k, 0) + n
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    # --- evidence
    stats = {}
    styles = {}
    sigs = set()
    for r in results:
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
        for k, v in r["styles"].items():
            styles[k] = styles.get(k, 0) + v
        sigs.update(r["sigs"])
    el = time.time() - t0
    runs = sum(r["runs"] for r in results)
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", wall_s=round(el, 3), violations=1 if reported else 0,
              coverage=dict(
                  evaluations=runs, distinct_nontrivial=len(sigs),
                  rule=(results[0]["rule"] if results else "") + " One run is one seed. Distinct: different hash of (sequence of thread switches with their step numbers, recorded history).",
                  samples=[s for r in results for s in r["samples"]][:3],
                  simulated_runs_per_hour=int(runs / max(el, 0.001) * 3600),
                  simulated_seconds=round(sum(r["sim_time"] for r in results), 3),
                  scheduler_steps=sum(r["steps"] for r in results), context_switches=sum(r["switches"] for r in results),
                  history_events=sum(r["history"] for r in results),
                  faults_injected={k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault.")},
                  probes={k: v for k, v in sorted(stats.items()) if not k.startswith("fault.")},
                  schedule_styles=styles, stopped_early=any(r["early"] for r in results),
                  same_process_replays=dict(compared=sum(r["rechecked"] for r in results), different=sum(r["nondet"] for r in results)),
                  cross_process_determinism=det, known_finding_hits=hits,
                  components_real=results[0]["components"]["real"] if results else [], components_stub=results[0]["components"]["stub"] if results else []),
              assumptions=["threads are preempted at lock operations and before bytecode instructions of the code under test that can touch shared state; C-level operations are atomic",
                           "seeded sampling of schedules and faults, not enumeration: absence of violations is evidence, not proof"])
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    if exit_code == 0:
        print(f"held: {runs} executions, {len(sigs)} distinct, {ev['coverage']['simulated_seconds']} simulated s, faults {ev['coverage']['faults_injected']}, {el:.1f} s")
    return exit_code


if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(check(sys.argv[1]))
