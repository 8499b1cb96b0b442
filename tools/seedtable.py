#!/usr/bin/env python3
"""Rewrites section 6 of DESIGN.md: the planted bugs and what each needs (from seeded/*/meta.json)."""
import json, os, glob
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
MISSED = {'c25-zorder-default': 'missed since C25 was thinned to its time; two overlapping visible media of one zIndex would show it'}
rows = []
for d in sorted(glob.glob(R + '/seeded/*/meta.json')):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    rows.append(f"| {i} | {m['needs']} | {MISSED.get(i, m['property'])} |")
t = '''## 6. Planted bugs

Each was written from a property's text and the code alone, and confirmed
(`tools/seed.py`: compiles, stable tests pass, demonstration fails only with it).
`tools/catch.sh` runs the full quick check against it, `tools/catchq.sh` the same
check up to its first failure. Where a check missed one, the families named in
section 3 were added; all below are caught by the check given,
unless marked missed. Besides,
`tools/mutate.py` makes small syntactic changes to the sources and keeps those
that pass the stable tests: the survivors of the checks were read one by one and
were equivalent, without observable effect (traces, assertions, caches), or led to
new families (names that begin alike, several links on one object, parameters,
blank contents, text properties set late, contexts without ports).

| change | needs | caught by |
|-|-|-|
''' + '\n'.join(rows) + '\n'
s = open(R + '/DESIGN.md').read()
k = s.find('## 6. Planted bugs')
open(R + '/DESIGN.md', 'w').write((s if k < 0 else s[:k].rstrip() + '\n').rstrip() + '\n\n' + t)
