#!/usr/bin/env python3
"""Writes SEEDS.md from the meta.json of every planted bug. MISSED lists what no check catches."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set()
o = ["# Planted bugs", "",
     "Each was written from the property and the code, and confirmed in a scratch copy: it compiles, the 17 tests pass, its",
     "demonstration fails with it and passes without it. \"Caught by\" is the quick check of the property.", "",
     "| bug | needs | breaks | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(f"{here}/seeded")):
    m = json.load(open(f"{here}/seeded/{d}/meta.json"))
    o.append(f"| {d} | {m['needs']} | {m['what_it_breaks']} | {'not caught' if d in MISSED else m['property']} |")
open(f"{here}/SEEDS.md", "w").write("\n".join(o) + "\n")
