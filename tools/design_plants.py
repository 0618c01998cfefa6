#!/usr/bin/env python3
"""Rewrites the section "Planted bugs" of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    by.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m["needs"]))
n = sum(map(len, by.values()))
out = ["## Planted bugs", "", f"`tools/plant.py` builds and confirms the {n} seeded changes (`tools/plants/*.py`) and runs the property's check with",
"each applied. All are caught by the quick tier of the check of their property at VERIF_SEED=1.",
"", "First missed, then caught after the check was strengthened: filter-bound-wide (C07 got exactly coplanar quadruples),",
"seed-small-refused (C10 sets of a few points), type-lower-case (C22 draws type names of all the allowed characters),",
"mesh-cavity-largest (C31 large clouds), englobe-in-place (C32 slices with room behind them), flip-corner-snap (C34 points",
"beside corners), circle-fan-parity and torus-ring-thick (C17–C19 chosen counts).", "",
"`tools/mutate` makes all single-token mutants of a file and runs the checks on each in a private mount namespace; its",
"survivors led to C36–C38 and to several of the generators. What is left are mutants that change no behaviour.", "",
"| check | catches (what the change needs to show) |", "|---|---|"]
for k in sorted(by):
    out.append(f"| {k} | " + "; ".join(f"**{i}** ({' '.join(x.split())})" for i, x in by[k]).replace("|", "\\|") + " |")
s = open(root + "/DESIGN.md").read()
s = s[: s.index("## Planted bugs")] + "\n".join(out) + "\n"
open(root + "/DESIGN.md", "w").write(s)
