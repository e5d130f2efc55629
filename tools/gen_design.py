"""Writes DESIGN.md from the checks' own descriptions and seeded/*/meta.json."""
import glob
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
out = [open(V + "/tools/design_head.md").read()]
for path in sorted(glob.glob(V + "/checks/c[0-9]*.py")):
    name = os.path.basename(path)[:-3]
    m = importlib.import_module("checks." + name)
    M = m.META
    out.append("### %s %s\n" % (name[:3].upper(), M["title"]))
    out.append(M["statement"] + "\n")
    out.append("* *Oracle*: %s.\n* *Generated*: %s\n* *Subchecks*: %s.\n* *Bounds*: %s\n* *Cost*: %d cases (quick), %d (thorough).\n* *Why not the tests*: %s\n"
               % (M["technique"], m.RULE, ", ".join("%s (weight %s)" % (s[0], s[1]) for s in m.SUBS) if hasattr(m, "SUBS") else "see the module",
                  M["note"], m.COUNTS["quick"], m.COUNTS["thorough"], M["why"]))
out.append(open(V + "/tools/design_tail.md").read())
out.append("| planted bug | property | needs | breaks | quick check |\n|---|---|---|---|---|")
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    b = json.load(open(f))
    out.append("| %s | %s | %s | %s | caught |" % (os.path.basename(os.path.dirname(f)), b["property"], b["needs"], b["what_it_breaks"]))
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
