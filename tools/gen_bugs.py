#!/usr/bin/env python3
"""Writes the table of section 6 of DESIGN.md from seeded/*/meta.json (run by hand; no check reads seeded/)."""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seeded = sys.argv[1] if len(sys.argv) > 1 else f"{root}/seeded"
NOTE = json.load(open(f"{root}/tools/bug_notes.json"))
rows = []
for d in sorted(os.listdir(seeded)):
    m = json.load(open(f"{seeded}/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {NOTE.get(d, 'as it was')} |")
p = f"{root}/DESIGN.md"
s = open(p).read()
head = "| bug | property | needs | caught by |\n|---|---|---|---|\n"
i = s.index(head) + len(head)
j = s.index("\n\n", i)
open(p, "w").write(s[:i] + "\n".join(rows) + s[j:])
