"""Fill the table of planted bugs in DESIGN.md."""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | property | what | needs |", "|----|----|----|----|"]
for s in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", s, "meta.json")))
    rows.append(f"| {s} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
p = os.path.join(root, "DESIGN.md")
t = open(p).read()
a, b = t.index("SEEDTABLE" if "SEEDTABLE" in t else "| id | property | what"), t.index("Besides, about 300")
open(p, "w").write(t[:a] + "\n".join(rows) + "\n\n" + t[b:])
