#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md; rewrites it with -w."""
import json, os, re, sys
home = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = set(open(home + "/tools/missed").read().split()) if os.path.exists(home + "/tools/missed") else set()
rows = ["<!-- seeds -->", "| bug | needs | caught by |", "|-----|-------|-----------|"]
for d in sorted(os.listdir(home + "/seeded")):
    m = json.load(open(f"{home}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['needs']} | {'**missed**' if d in missed else m['property']} |")
rows.append("<!-- /seeds -->")
t = "\n".join(rows)
if "-w" in sys.argv:
    p = home + "/DESIGN.md"
    s = open(p).read()
    s = s.replace("SEEDTABLE", "<!-- seeds --><!-- /seeds -->")
    s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: t, s, flags=re.S)
    open(p, "w").write(s)
else:
    print(t)
