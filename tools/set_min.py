"""Set MIN of each check module to half of what a quick run observes (developer tool)."""
import ast
import json
import os
import re
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for fn in sorted(os.listdir(ROOT + "/checks")):
    if not re.match(r"p\d\d_.*\.py$", fn) or (sys.argv[1:] and fn[:3] not in sys.argv[1:]):
        continue
    path = f"{ROOT}/checks/{fn}"
    src = open(path).read()
    mins = bud = node = None
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and n.targets[0].id == "MIN":
            mins, node = ast.literal_eval(n.value), n
        elif isinstance(n, ast.Assign) and n.targets[0].id == "BUDGET":
            bud = ast.literal_eval(n.value)
    p = subprocess.run(["./check", fn[:3], "--cases", str(bud["quick"])], cwd=ROOT, capture_output=True, text=True)
    cov = json.load(open(f"{ROOT}/evidence/{fn[:3].upper()}.json"))["coverage"]
    got = dict(cov["events"], evaluations=cov["evaluations"], distinct=cov["distinct_nontrivial"])
    new = {}
    for k in mins:
        v = int(got.get(k, 0) * 0.55)
        for m in (1000, 100, 10, 1):
            if v >= 10 * m or m == 1:
                v = v // m * m
                break
        new[k] = v
    low = {k: got.get(k, 0) for k in mins if got.get(k, 0) < 50}
    print(fn[:3], p.returncode, p.stdout[-1:] and p.stdout.strip().splitlines()[-1][:90], "LOW " + str(low) if low else "")
    line, cur = [], "MIN = {"
    for k, v in new.items():
        item = f'"{k}": {v}, '
        if len(cur) + len(item) > 138:
            line.append(cur.rstrip())
            cur = "       "
        cur += item
    line.append(cur.rstrip(", ") + "}")
    ls = src.split("\n")
    ls[node.lineno - 1:node.end_lineno] = line
    open(path, "w").write("\n".join(ls))
