import json, glob, os
d = {}
for f in sorted(glob.glob("/verif/evidence/C*.json")):
    e = json.load(open(f)); c = e["coverage"]
    if e["tier"] == "quick": d[e["property"]] = f"{e['wall_s']:.0f} s, solver {c['solver_s']:.0f} s, {c['states']} paths, {c['queries']} queries"
json.dump(d, open(os.path.dirname(os.path.abspath(__file__)) + "/cost.json", "w"), indent=1)
