#!/usr/bin/env python3
"""Writes DESIGN.md from its parts, with the table of the planted bugs."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
part = lambda n: open(os.path.join(V, "tools", n)).read()
rows = []
for p in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(p))
    rows.append(f"| {os.path.basename(os.path.dirname(p))} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
with open(os.path.join(V, "DESIGN.md"), "w") as f:
    f.write(part("design_head.md") + part("design_props.md") + part("design_tail.md"))
    f.write("## Planted bugs\n\nEach is caught by the quick check of its property (exit 1 with its VIOLATION line), "
            "unless the table of misses says otherwise.\n\n| id | property | what it breaks | needs |\n|---|---|---|---|\n")
    f.write("\n".join(rows) + "\n")
    f.write("\n" + part("design_misses.md"))
