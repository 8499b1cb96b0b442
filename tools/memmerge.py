#!/usr/bin/env python3
"""Merges the parts of the memory check (build/C25-*.json) into evidence/C25.json."""
import json, sys, os
hs, wall = sys.argv[2:], float(sys.argv[1])
out = None
for h in hs:
    f = f'build/C25-{h}.json'
    if not os.path.exists(f): continue
    d = json.load(open(f)); c = d['coverage']
    c['families'] = {h + ': ' + k: v for k, v in c['families'].items() if v}
    c['samples'] = [h + ': ' + x for x in c['samples'][:4]]
    c['rule'] = h + ': ' + c['rule']
    if out is None: out = d; continue
    o = out['coverage']
    for k, v in c.items():
        if isinstance(v, bool): o[k] = o.get(k, True) and v
        elif isinstance(v, (int, float)): o[k] = o.get(k, 0) + v
        elif isinstance(v, dict): o.setdefault(k, {}).update(v)
        elif isinstance(v, list): o[k] = o.get(k, []) + v
        elif k in o: o[k] += '; ' + v
        else: o[k] = v
    for a in d['assumptions']:
        if a not in out['assumptions']: out['assumptions'].append(a)
    out['violations'] += d['violations']
out['wall_s'] = wall
os.makedirs('evidence', exist_ok=True)
json.dump(out, open('evidence/C25.json', 'w'), indent=1)
