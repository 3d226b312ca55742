#!/usr/bin/env python3
"""prints the table of planted bugs for DESIGN.md: python3 kit/seed_table.py CATCHES (output of the catch loop)"""
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
how = {}
for l in open(sys.argv[1]):
    m = re.match(r"(\S+) rc=(\d+) \S+ :: (\d+) refuted, (\d+) undecided", l)
    if m:
        i, rc, r, u = m.group(1), int(m.group(2)), int(m.group(3)), int(m.group(4))
        how[i] = "missed" if rc != 1 else f"{r} obligation{'s' if r > 1 else ''} refuted" if r else "bounded stand-in (unit undecided)"
print("| planted bug | check | what it breaks; needs | caught by |\n|---|---|---|---|")
for i in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    d = json.load(open(os.path.join(HERE, "seeded", i, "meta.json")))
    print(f"| {i} | {d['property']} | {d['what_it_breaks']}; {d['needs']} | {how.get(i, '?')} |")
