import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
lv = {}
p = os.path.join(V, "tools", "levels.json")
if os.path.exists(p):
    lv = json.load(open(p))
checks = []
for d in props:
    i = d["id"]
    x = lv.get(i, {})
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i} --tier quick",
        "thorough_cmd": f"python3 check.py {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": x.get("technique", "run-time contract checking of the compiled code (bounded)"),
        "level": x.get("level", "exploration"),
        "level_note": x.get("note", "bounded: contract evaluated on the compiled code"),
    })
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": []},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
