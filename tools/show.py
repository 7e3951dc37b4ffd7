"""Prints error/tolerance ratios of an evidence file: python3 tools/show.py C01"""
import json, os, sys
for p in sys.argv[1:]:
    e = json.load(open(os.path.join(os.path.dirname(__file__), "..", "evidence", p + ".json")))
    c = e["coverage"]
    print(p, e["tier"], e["seed"], "wall", e["wall_s"], "cases", c["evaluations"], "distinct", c["distinct_nontrivial"], "viol", e["violations"])
    for k, v in c["observations_per_rule"].items():
        w = v["largest_error_over_tolerance"]
        print("   %-60s n=%-6d bad=%-3d x64 %-8g f32 %-8g" % (k, v["observed"], v["violated"], w["double"], w["single"]))
