#!/usr/bin/env python3
"""Development tool: run every check (quick and thorough) and store the wall
times in tools/costs.json for the table of DESIGN.md"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [c['property'] if 'property' in c else c['id'] for c in json.load(
    open(V + '/MANIFEST.json'))['checks']]
out = V + '/tools/costs.json'
res = json.load(open(out)) if os.path.exists(out) else {}
for i in sys.argv[1:] or ids:
    for tier in ('quick', 'thorough'):
        t = time.time()
        r = subprocess.run([sys.executable, V + '/run.py', i, '--tier', tier],
                           cwd=V, capture_output=True, text=True)
        res.setdefault(i, {})[tier] = round(time.time() - t)
        print(i, tier, res[i][tier], r.returncode, flush=True)
        if r.returncode:
            print(r.stdout[-1500:], flush=True)
    json.dump(res, open(out, 'w'), indent=0, sort_keys=True)
