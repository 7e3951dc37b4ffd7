"""Run one workload of a check: python3 tools/kind.py C17 neighbours [x64=1] [i=0] [key=value ...] (RV_SEED)"""
import ast
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from rv import plans, run

prop, kind = sys.argv[1:3]
kw = {}
for a in sys.argv[3:]:
    k, v = a.split("=", 1)
    try:
        kw[k] = ast.literal_eval(v)
    except Exception:
        kw[k] = v
x64, i = bool(kw.pop("x64", True)), kw.pop("i", 0)
args = kw or next(t["args"] for t in plans.PLAN[prop]["tasks"]("quick") if t["kind"] == kind and bool(t["x64"]) == x64)
t = dict(kind=kind, i=i, x64=x64, cost=1.0, args=args)
with tempfile.TemporaryDirectory() as d:
    p = subprocess.run([run.PY, os.path.join(HERE, "rv/worker.py"), prop, os.environ.get("RV_SEED", "1"), str(int(x64)), "0"],
                       input=json.dumps(t) + "\n", text=True, capture_output=True, env=dict(run.environment(d), **{k: v for k, v in os.environ.items() if k == "RV_REPO"}))
for l in p.stdout.splitlines():
    r = json.loads(l)
    print("cases", r["cases"], "wall %.1f" % r["wall"], "error", r["error"])
    for k, v in r["rules"].items():
        print("  %-60s n=%-5d bad=%-4d worst=%.2g" % (k, v["n"], v["bad"], v["worst"]))
    for v in r["violations"]:
        print("  !!", json.dumps(v)[:700])
if p.returncode or not p.stdout:
    print(p.stderr[-3000:])
