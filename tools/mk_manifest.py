#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist.  Run by hand after adding a check."""
import ast
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {}
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    props[p["id"]] = p
checks = []
for fn in sorted(glob.glob(os.path.join(V, "checks", "p[0-9]*.py"))):
    ns = {}
    tree = ast.parse(open(fn).read())
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                ns[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    name = os.path.basename(fn)[:3]
    checks.append(dict(
        property=ns["PROP"],
        quick_cmd=f"./check {name} --tier quick",
        thorough_cmd=f"./check {name} --tier thorough",
        technique="runtime monitoring: " + ns.get("TECHNIQUE", "generated programs run against the real library while an "
                  "online oracle (executable reference model of the documented behaviour) judges every observed result"),
        level="exploration",
        level_note=ns.get("NOTE", "Seeded generated workload on both JSON backends; holds on everything executed, no claim beyond the "
                   "generated space."),
    ))
missing = [p for p in props if p not in {c["property"] for c in checks}]
na = [dict(property=p, reason="no check yet") for p in missing]
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na)
with open(os.path.join(V, "MANIFEST.json"), "w") as fp:
    json.dump(m, fp, indent=1)
    fp.write("\n")
print(len(checks), "checks; missing", missing)
