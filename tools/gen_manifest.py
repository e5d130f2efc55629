"""Writes properties.jsonl and MANIFEST.json from the META and RULE literals of checks/*.py."""
import ast
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out, checks = [], []
for fn in sorted(os.listdir(V + "/checks")):
    m = re.match(r"(c\d+)_\w+\.py$", fn)
    if not m:
        continue
    pid = m.group(1).upper()
    tree = ast.parse(open(V + "/checks/" + fn).read())
    lit = {}
    for node in tree.body:
        if isinstance(node, ast.Assign) and node.targets[0].id in ("META", "RULE") if isinstance(
                node, ast.Assign) and isinstance(node.targets[0], ast.Name) else False:
            lit[node.targets[0].id] = ast.literal_eval(node.value)
    if "META" not in lit:
        print("no META:", fn)
        continue
    M = lit["META"]
    assert len(M["title"]) <= 80, M["title"]
    out.append({
        "id": pid, "title": M["title"], "statement": M["statement"],
        "quantifier": {"over": M.get("over", ["inputs"]), "text": M["text"]},
        "why_tests_cant": M["why"],
        "anchors": {"files": M["files"],
                    "mechanism": [{"name": a, "where": b} for a, b in M["mechanism"]],
                    "observe_at": M.get("observe", ["values returned by the Python API"]),
                    "hook_needed": None},
    })
    checks.append({
        "property": pid,
        "quick_cmd": "bash check.sh " + pid,
        "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + pid,
        "technique": M["technique"],
        "level": "exploration",
        "level_note": M["note"],
    })
with open(V + "/properties.jsonl", "w") as f:
    for x in out:
        f.write(json.dumps(x) + "\n")
man = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": [],
    "notes": "All checks are generated-input search (pbt/engine.py: recorded choice sequences, shrinking, replay files in "
             "evidence/replay; replay with 'bash check.sh <ID> --replay <file>'). VERIF_CASES overrides the number of "
             "cases, VERIF_SEED the seed.",
}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(out), "properties")
