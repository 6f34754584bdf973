"""Writes MANIFEST.json from the check modules (run: /opt/venv/bin/python tools/gen_manifest.py)."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    f = os.path.join(V, "checks", p["id"].lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": p["id"], "reason": "no check built yet"})
        continue
    vals = {}
    for s in ast.parse(open(f).read()).body:
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id in ("LEVEL", "TECHNIQUE", "LEVEL_NOTE"):
            vals[s.targets[0].id] = ast.literal_eval(s.value)
    checks.append(dict(property=p["id"], quick_cmd=f"./check.py {p['id']} --quick", thorough_cmd=f"./check.py {p['id']} --thorough",
                       evidence_file=f"evidence/{p['id']}.json", technique=vals["TECHNIQUE"], level=vals["LEVEL"], level_note=vals["LEVEL_NOTE"]))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -B -c \"import sys; sys.path.insert(0, '/repo'); import mcpyrate; print('ok')\"", checks=checks, not_applicable=na,
         notes="Checks run /repo's working tree directly (pure Python, nothing to build). No hooks in /repo. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
