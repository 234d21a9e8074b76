#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = {l.strip() for l in open(root + '/tools/missed.txt')} if os.path.exists(root + '/tools/missed.txt') else set()
rows = ["| bug | breaks | caught by |", "|---|---|---|"]
for d in sorted(glob.glob(root + '/seeded/*/')):
    i = os.path.basename(d[:-1]); m = json.load(open(d + 'meta.json'))
    rows.append(f"| {i} | {m['what_it_breaks']} — needs {m['needs']} | {'not caught' if i in missed else m['property']} |")
p = root + '/DESIGN.md'; s = open(p).read()
s = re.sub(r'<!-- seeded -->.*?<!-- /seeded -->', lambda _: '<!-- seeded -->\n' + '\n'.join(rows) + '\n<!-- /seeded -->', s, flags=re.S)
open(p, 'w').write(s)
