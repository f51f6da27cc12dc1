"""writes MANIFEST.json and properties.jsonl from lib/props.py (run by hand; the results are committed)"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                         "observe_at": p.get("observe", []), "hook_needed": None}}
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": [], "not_applicable": []}
for p in props.PROPS:
    if p.get("na"):
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        continue
    m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"],
                        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                        "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"],
                        "level": p.get("level", "exploration"), "level_note": p["note"]})
m["notes"] = "Every check builds /repo's working tree privately in a scratch directory; no hooks are compiled into /repo."
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
