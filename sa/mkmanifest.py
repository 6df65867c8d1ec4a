"""writes MANIFEST.json from the registry"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 sa/selftest.py", "checks": [], "not_applicable": []}
for p in ids:
    e = registry.PROPS.get(p)
    if e:
        m["checks"].append({"property": p, "quick_cmd": "python3 sa/check.py %s" % p,
                            "thorough_cmd": "VERIF_TIER=thorough python3 sa/check.py %s" % p,
                            "technique": e["technique"], "level": e["level"], "level_note": e["note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": registry.NA.get(p, "not built yet")})
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
