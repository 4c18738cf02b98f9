#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules that exist (run by hand)."""
import ast, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
DEFAULT = "bounded exhaustive exploration of the real code against a reference model (explicit-state, every case compared)"
checks, na = [], []
for i in ids:
    f = os.path.join(here, "mc", "checks", i.lower() + ".py")
    if not os.path.exists(f):
        na.append(dict(property=i, reason="check not built yet"))
        continue
    t = ast.parse(open(f).read())
    doc = " ".join((ast.get_docstring(t) or "").split())
    tech, note = DEFAULT, doc[:900]
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "TECHNIQUE":
            tech = ast.literal_eval(n.value)
    checks.append(dict(property=i, quick_cmd="./check %s" % i, thorough_cmd="VERIF_TIER=thorough ./check %s" % i,
                       evidence_file="evidence/%s.json" % i, technique=tech, level="model_checking", level_note=note))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -B mc/build.py plain asan tsan fault", checks=checks, not_applicable=na)
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), len(na))
