"""Counts of a sweep on the unchanged tree -> rv/floors.json: a quarter of the least seen, for rules seen often."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(ROOT, "rv", "floors.json")
fl = json.load(open(path))
for p, tiers in json.load(open(sys.argv[1])).items():
    for tier, runs in tiers.items():
        rules = set.intersection(*[set(r) for r in runs.values()])
        low = {k: min(r[k] for r in runs.values()) for k in rules}
        fl.setdefault(p, {})[tier] = {k: v // 4 for k, v in sorted(low.items()) if v >= 8}
json.dump(fl, open(path, "w"), indent=1, sort_keys=True)
