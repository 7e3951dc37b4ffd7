"""Runs checks over seeds; keeps the counts of every rule: python3 tools/sweep.py OUT.json TIER SEEDS [IDS...]

mkfloors.py turns the counts into rv/floors.json.
"""
import json, os, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from rv import plans
out, tier, seeds = sys.argv[1], sys.argv[2], sys.argv[3].split(",")
ids = sys.argv[4:] or sorted(plans.PLAN)
res = json.load(open(out)) if os.path.exists(out) else {}
for s in seeds:
    for p in ids:
        t = time.time()
        r = subprocess.run([sys.executable, os.path.join(ROOT, "rv/run.py"), "check", p, tier], cwd=ROOT, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_SEED=s, VERIF_TIER=tier))
        e = json.load(open(os.path.join(ROOT, "evidence", p + ".json")))
        n = {k: v["observed"] for k, v in e["coverage"]["observations_per_rule"].items()}
        if r.returncode == 0:
            res.setdefault(p, {}).setdefault(tier, {})[s] = n
        print(s, p, r.returncode, "%.0fs" % (time.time() - t), (r.stdout[-1500:] if r.returncode else ""), flush=True)
        json.dump(res, open(out, "w"))
