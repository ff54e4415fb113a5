#!/usr/bin/env python3
"""seedtable.py    writes the table of planted bugs into section 7 of DESIGN.md"""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(ROOT + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append((m["property"], os.path.basename(d), m["needs"]))
table = "| check | planted bug | needs |\n|---|---|---|\n" + "".join(f"| {p} | {i} | {n} |\n" for p, i, n in sorted(rows))
p = ROOT + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(<!-- planted bugs -->\n).*?(?=<!-- end -->)", lambda m: m.group(1) + table, s, flags=re.S)
open(p, "w").write(s)
print(len(rows), "planted bugs")
