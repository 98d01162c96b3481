#!/usr/bin/env python3
"""Prints the catch table of DESIGN.md from the seeded metas and observed results (stdin: ID rc)."""
import json, os, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
seen = dict(l.split()[:2] for l in sys.stdin if l.strip())
print("| change | property | what it breaks | needs | own check |\n|---|---|---|---|---|")
for d in sorted(os.listdir(root)):
    m = json.load(open(os.path.join(root, d, "meta.json")))
    print(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {seen.get(d, '?')} |")
