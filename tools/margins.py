#!/usr/bin/env python3
"""Prints the observations of the last runs that come close to the minimum
a check requires (MUST): margins.py [FACTOR]"""
import ast
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
factor = float(sys.argv[1]) if len(sys.argv) > 1 else 1.8
for f in sorted(glob.glob(os.path.join(HERE, 'checks', 'c*.py'))):
    pid = os.path.basename(f)[:3].upper()
    ev = os.path.join(HERE, 'evidence', pid + '.json')
    if not os.path.exists(ev):
        continue
    must = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == \
                'MUST':
            must = eval(compile(ast.Expression(n.value), f, 'eval'))
    seen = json.load(open(ev))['coverage']['observed_events']
    for k, v in must.items():
        if seen.get(k, 0) < factor * v:
            print(pid, k, 'observed', seen.get(k, 0), 'required', v)
