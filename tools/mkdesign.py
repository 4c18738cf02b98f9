#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md (run by hand): check bounds, defects repaired, planted bugs and what catches them."""
import ast, glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()


def put(name, text):
    global s
    a, b = "<!-- %s -->" % name, "<!-- /%s -->" % name
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + "\n" + text + s[j:]


def consts(f):
    out = {}
    t = ast.parse(open(f).read())
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("BOUNDS", "ASSUMPTIONS"):
            out[n.targets[0].id] = eval(compile(ast.Expression(n.value), f, "eval"), {"dict": dict})
    return out


for f in sorted(glob.glob(here + "/mc/checks/c[0-9]*.py")):
    i = os.path.basename(f)[:-3].upper()
    c = consts(f)
    t = "*Quick bound:* %s.\n*Thorough bound:* %s.\n" % (c["BOUNDS"]["quick"], c["BOUNDS"]["thorough"])
    if c.get("ASSUMPTIONS"):
        t += "*Assumes:* %s.\n" % "; ".join(c["ASSUMPTIONS"])
    put("bounds " + i, t)
k = json.load(open(here + "/known_findings.json"))
put("fixed", "".join("- %s\n" % x for x in k["fixed"]))
put("findings", "".join("- %s: %s (%s)\n" % (x["property"], x["what"], x["match"]["case"][-1]) for x in k["findings"]))
caught = json.load(open(here + "/tools/caught.json"))
rows = []
for d in sorted(glob.glob(here + "/seeded/*/meta.json")):
    i = d.split("/")[-2]
    m = json.load(open(d))
    c = caught.get(i)
    rows.append((m["property"], i, ", ".join(c) if c else ("none" if c == [] else "?"), m["what_it_breaks"].replace("|", "/")))
put("seeded", "| property | planted change | caught by | what it breaks |\n|---|---|---|---|\n" + "".join("| %s | %s | %s | %s |\n" % r for r in sorted(rows)))
open(p, "w").write(s)
