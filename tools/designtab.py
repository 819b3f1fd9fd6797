"""Rewrites the planted-bug table at the end of DESIGN.md from seeded/*/meta.json and tools/also.json (development tool)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "| planted bug | needs | breaks | caught by |"
also = json.load(open(os.path.join(ROOT, "tools", "also.json")))
rows = [MARK, "| --- | --- | --- | --- |"]
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    rows.append(f"| {d} | {m['needs']} | {m['what_it_breaks']} | {also.get(d, m['property'])} |")
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
s = s[:s.index(MARK)] if MARK in s else s + "\n"
open(p, "w").write(s + "\n".join(rows) + "\n")
