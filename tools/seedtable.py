#!/usr/bin/env python3
"""rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json and tools/caught.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(f"{V}/tools/caught.json")); t = open(f"{V}/DESIGN.md").read().split("<!-- seeds -->")[0] + "<!-- seeds -->\n| planted change | what it needs | caught by its check |\n|---|---|---|\n"
for d in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json")); r = c.get(d)
    t += f"| {d} | {m['needs']} | {'not run' if r is None else m['property'] if r['caught'] else 'missed'} |\n"
open(f"{V}/DESIGN.md", "w").write(t)
