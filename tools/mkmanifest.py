"""Writes MANIFEST.json from properties.jsonl and the check modules that exist."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = {}
exec(open(os.path.join(V, "tools", "notes_manifest.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    path = os.path.join(V, "checks", i.lower() + ".py")
    if os.path.exists(path):
        checks.append(dict(property=i, quick_cmd=f"VERIF_TIER=quick bash ./check.sh {i}",
                           thorough_cmd=f"VERIF_TIER=thorough bash ./check.sh {i}",
                           technique=TECH.get(i, DEFAULT), level="exploration", level_note=NOTE.get(i, NOTE_DEFAULT)))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="bash ./setup.sh", checks=checks,
         hooks=dict(guard="none", enable="no hooks were added to the repository", source_commits=[]), not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "not built")
