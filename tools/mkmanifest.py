"""Write MANIFEST.json from the list of claimed checks and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + "/gen")
import plans
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
T = plans.TECHNIQUE
checks = []
na = []
for p in props:
    i = p["id"]
    if i in plans.PLANS:
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": T.get(i, "property-based testing"), "level": "exploration",
                       "level_note": plans.NOTE.get(i, "sampled: exploration of generated inputs against an explicit oracle; absence of violations is not proved")})
    else:
        na.append({"property": i, "reason": "no check yet: the machinery for it is still being built"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
