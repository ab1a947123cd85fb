#!/usr/bin/env python3
"""Development tool: refresh the table of planted bugs in DESIGN.md (argument: IDs that are missed)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
head = s[:s.index("| bug |")]
rows = []
for b in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", b, "meta.json")))
    by = "**missed**" if b in sys.argv[1:] else m["property"]
    rows.append(f"| {b} | {m['what_it_breaks']} | {by} |")
open(p, "w").write(head + "| bug | what it breaks | caught by |\n|---|---|---|\n" + "\n".join(rows) + "\n")
