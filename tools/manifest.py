#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the drivers present."""
import ast, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    f = os.path.join(ROOT, "harness", "drivers", p["id"].lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": p["id"], "reason": "not decided yet: its specification module is not written"})
        continue
    mod = ast.parse(open(f).read())
    doc = ast.get_docstring(mod)
    consts = {
        n.targets[0].id: ast.literal_eval(n.value)
        for n in mod.body
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("LEVEL", "NOTE", "TECHNIQUE")
    }
    checks.append({
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']} quick",
        "thorough_cmd": f"python3 check.py {p['id']} thorough",
        "technique": consts.get("TECHNIQUE", "TLA+ specification evaluated and explored by TLC; behaviours of the real code judged against it"),
        "level": consts.get("LEVEL", "model_checking"),
        "level_note": consts.get("NOTE", doc.split("\n\n")[0].replace("\n", " ") + " Bounded: the generated behaviours are those of the seed and tier."),
    })
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "TLA+ with TLC; DESIGN.md says what each module specifies and how it is bound to the code.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not applicable")
