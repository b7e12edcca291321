#!/usr/bin/env python3
"""Rewrites the tables of findings and planted bugs in DESIGN.md."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = f"{root}/DESIGN.md"
s = open(p).read()
k = json.load(open(f"{root}/known_findings.json"))
def table(s, head, rows):
    i = s.index(head)
    j = s.index("\n\n", i)
    return s[:i] + head + "\n" + re.sub(r"[^|\n]+", "---", head) + "\n" + "\n".join(rows) + s[j:]
order = sorted(k["findings"], key=lambda f: f["property"])
s = table(s, "| property | id | what fails |", [f"| {f['property']} | {f['id']} | {f['what']} |" for f in order])
bugs = []
for d in sorted(os.listdir(f"{root}/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    bugs.append(f"| {d} | {m['property']} | {' '.join(m['needs'].split())} |")
s = table(s, "| bug | caught by | needs |", bugs)
s = re.sub(r"\d+ defects were repaired", f"{len(k['fixed'])} defects were repaired", s)
s = re.sub(r"\n\d+ are recorded and not repaired", f"\n{len(order)} are recorded and not repaired", s)
s = re.sub(r"\d+ genuine defects were found", f"{len(k['fixed'])} genuine defects were found", s)
open(p, "w").write(s)
