"""python3 rv/run.py check C01 [quick|thorough]   |   replay FILE   |   list

Exit 0: every observation agreed.  1: VIOLATION line.  2: inconclusive (the
monitors did not see what they had to see, or a worker could not finish).
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
LEVEL = "exploration"
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from rv import plans


def environment(tmp):
    env = {
        k: v for k, v in os.environ.items()
        if not k.startswith(("JAX_", "XLA_", "PYTHON", "OMP_", "MKL_", "OPENBLAS"))
    }
    env.update(
        HOME=tmp, JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
        PYTHONPYCACHEPREFIX=os.path.join(tmp, "pyc"), PYTHONWARNINGS="ignore",
        PYTHONNOUSERSITE="1", TF_CPP_MIN_LOG_LEVEL="3", OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
    )
    return env


def run_tasks(prop, tasks, seed, limit, verbose=False, workers=8):
    """Runs tasks in worker processes; returns (results, unfinished tasks, logs).

    Workers keep one precision (a process wide switch) and take the costliest
    task left of that precision; the watchdog stops all of them after limit.
    """
    tmp = tempfile.mkdtemp(prefix="rv_")
    env = environment(tmp)
    left = {x: sorted((t for t in tasks if bool(t["x64"]) == x), key=lambda t: t.get("cost", 1.0))
            for x in (True, False)}
    cost = {x: sum(t.get("cost", 1.0) for t in left[x]) for x in left}
    results, missing, logs, procs = [], [], [], set()
    lock = threading.Lock()
    t0 = time.time()

    def take(x64):
        with lock:
            if time.time() - t0 < limit and left[x64]:
                return left[x64].pop()
        return None

    def start(x64, n):
        log = open(os.path.join(tmp, "log%d_%d" % (n, time.monotonic_ns())), "w+")
        p = subprocess.Popen(
            [PY, os.path.join(HERE, "worker.py"), prop, str(seed), str(int(x64)), str(int(verbose))],
            env=env, cwd=tmp, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=None if verbose else log, text=True, start_new_session=True,
        )
        with lock:
            procs.add(p)
        return p, log

    def serve(n):
        x64 = n < share
        for x64 in (x64, not x64):
            p = None
            while True:
                t = take(x64)
                if t is None:
                    break
                if p is None:
                    p, log = start(x64, n)
                line = ""
                try:
                    p.stdin.write(json.dumps(t) + "\n")
                    p.stdin.flush()
                    line = p.stdout.readline()
                except OSError:
                    pass
                if line:
                    with lock:
                        results.append(json.loads(line))
                    continue
                p.wait()
                log.seek(0)
                with lock:
                    missing.append(t)
                    logs.append("worker ended (%s): %s" % (p.returncode, log.read()[-1500:]))
                p = None
                if len(missing) > 8:
                    break
            if p is not None:
                p.stdin.close()
                p.wait()

    share = round(workers * cost[True] / ((cost[True] + cost[False]) or 1.0))
    share = min(max(share, 1 if left[True] else 0), workers - (1 if left[False] else 0))
    threads = [threading.Thread(target=serve, args=(n,), daemon=True) for n in range(workers)]
    try:
        for t in threads:
            t.start()
        for t in threads:
            t.join(max(1.0, limit - (time.time() - t0)))
        if any(t.is_alive() for t in threads):
            logs.append("watchdog: stopped after %d s" % limit)
            with lock:
                for p in procs:
                    if p.poll() is None:
                        p.kill()
            for t in threads:
                t.join(30)
        for x in left:
            missing += left[x]
        results.sort(key=lambda r: (r["task"]["kind"], r["task"]["i"], r["task"]["x64"]))
        return results, missing, logs
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(prop, tier, seed):
    t0 = time.time()
    plan = plans.PLAN[prop]
    tasks = plan["tasks"](tier)
    limit = 840 if tier == "quick" else 6 * 3600
    results, missing, logs = run_tasks(prop, tasks, seed, limit)
    rules, states, samples, viol, known = {}, set(), [], [], {}
    errors = [r for r in results if r["error"]]
    kinds = {}
    for r in results:
        kinds[r["task"]["kind"]] = kinds.get(r["task"]["kind"], 0) + r["cases"]
        for k, v in r["rules"].items():
            t = rules.setdefault(k, {"n": 0, "bad": 0, "double": 0.0, "single": 0.0})
            t["n"] += v["n"]
            t["bad"] += v["bad"]
            q = "double" if r["task"].get("x64", True) else "single"
            t[q] = max(t[q], v["worst"])
        states.update(r["states"])
        if r["samples"] and len(samples) < 12 and sum(
            s["kind"] == r["task"]["kind"] for s in samples
        ) < 2:
            samples += r["samples"]
        viol += [dict(v, task=r["task"]) for v in r["violations"]]
        for k in r["known"]:
            known.setdefault(k["id"], []).append(k["what"])
    listed = {}
    path = os.path.join(ROOT, "known_findings.json")
    if os.path.exists(path):
        listed = {f["id"]: f for f in json.load(open(path))["findings"] if f["property"] == prop}
    for k in list(known):
        if k not in listed:
            viol.append(
                {"rule": "unlisted finding " + k, "case": {}, "witness": {"what": known[k][0]},
                 "task": next(r["task"] for r in results if any(x["id"] == k for x in r["known"]))}
            )
            known.pop(k)
    need = json.load(open(os.path.join(HERE, "floors.json"))).get(prop, {}).get(tier, {})
    short = {k: (rules.get(k, {}).get("n", 0), n) for k, n in need.items()
             if rules.get(k, {}).get("n", 0) < n}
    observations = sum(v["n"] for v in rules.values())
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL,
        "coverage": {
            "evaluations": sum(r["cases"] for r in results),
            "distinct_nontrivial": len(states),
            "rule": plan["rule"],
            "samples": samples,
            "observations": observations,
            "observations_per_rule": {
                k: {"observed": v["n"], "violated": v["bad"],
                    "largest_error_over_tolerance": {q: round(v[q], 4) for q in ("double", "single")}}
                for k, v in sorted(rules.items())
            },
            "cases_per_workload": kinds,
            "tasks": len(tasks), "tasks_finished": len(results),
            "workloads_double_precision": sum(bool(r["task"].get("x64", True)) for r in results),
            "workloads_single_precision": sum(not r["task"].get("x64", True) for r in results),
        },
        "assumptions": plan["assumptions"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    if os.environ.get("RV_TIMES"):
        for r in sorted(results, key=lambda r: -r["wall"]):
            print("   %6.1fs x64=%d %s %s" % (r["wall"], r["task"]["x64"], r["task"]["kind"], r["task"].get("args")))
    if known:
        ev["coverage"]["known_findings_seen"] = {k: len(v) for k, v in known.items()}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for k, w in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s: %s (seen %d times; e.g. %s)"
              % (prop, k, listed[k]["what"], len(w), w[0]))
    if viol:
        rdir = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        rfile = os.path.join(rdir, "%s-%s-%d.json" % (prop, tier, seed))
        with open(rfile, "w") as fh:
            json.dump({"property": prop, "seed": seed, "task": viol[0]["task"],
                       "violations": viol[:40]}, fh, indent=1)
        seen = set()
        for v in viol:
            if v["rule"] not in seen and len(seen) < 6:
                seen.add(v["rule"])
                print("  %s: %s" % (v["rule"], json.dumps(
                    {"task": v["task"], "case": v["case"], "witness": v["witness"]})[:900]))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(rfile, ROOT)))
        return 1
    if errors or missing or short or observations == 0:
        print("INCONCLUSIVE property=%s" % prop)
        for e in errors[:3]:
            print("  harness error in", e["task"], "\n", e["error"])
        for l in logs[:3]:
            print(" ", l)
        if missing:
            print("  unfinished tasks:", missing[:5])
        if short:
            print("  observed too little:", short)
        return 2
    print("HELD property=%s tier=%s seed=%d cases=%d observations=%d rules=%d wall=%.1fs"
          % (prop, tier, seed, ev["coverage"]["evaluations"], observations, len(rules),
             ev["wall_s"]))
    return 0


def replay(path):
    r = json.load(open(path))
    results, missing, logs = run_tasks(r["property"], [r["task"]], r["seed"], 3600, True, 1)
    bad = [v for x in results for v in x["violations"]]
    for v in bad:
        print(json.dumps(v)[:1500])
    if bad:
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1
    for x in results:
        if x["error"]:
            print(x["error"])
    print("not reproduced" if results else "did not run: %s" % logs)
    return 0 if results else 2


if __name__ == "__main__":
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if sys.argv[1] == "check":
        tier = sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick")
        sys.exit(check(sys.argv[2], tier, seed))
    elif sys.argv[1] == "list":
        for p in sorted(plans.PLAN):
            print(p, len(plans.PLAN[p]["tasks"]("quick")), len(plans.PLAN[p]["tasks"]("thorough")), "tasks")
    elif sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
