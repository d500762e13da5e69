"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(here + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append(f"| {os.path.basename(os.path.dirname(m))} | {d['property']} | {d['needs'].replace('|', '/')} |")
p = here + "/DESIGN.md"
s = open(p).read()
head = "| planted bug | check that catches it | needs |\n|---|---|---|\n"
a = s.index(head) + len(head)
b = s.index("\n\n", a)
open(p, "w").write(s[:a] + "\n".join(rows) + s[b:])
