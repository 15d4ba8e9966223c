#!/usr/bin/env python3
"""Development tool: fill the tables of DESIGN.md from seeded/ and evidence/
(between the markers it leaves behind, so that it can be run again)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + '/DESIGN.md'
s = open(p).read()
rows = {}
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(f))
    rows.setdefault(d['property'], []).append(os.path.basename(os.path.dirname(f)))
n = sum(map(len, rows.values()))
t = '| check | catches |\n|---|---|\n' + ''.join(
    '| %s | %s |\n' % (k, ', '.join(x[4:] if x.lower().startswith(k.lower() + '-') else x for x in v)) for k, v in sorted(rows.items()))
def block(name, text):
    global s
    b = '<!-- %s -->\n%s\n<!-- /%s -->' % (name, text.strip(), name)
    if '<!-- %s -->' % name in s:
        s = re.sub(r'<!-- %s -->.*?<!-- /%s -->' % (name, name), lambda m: b, s, flags=re.S)
    else:
        s = s.replace('%%%s%%' % name, b)
block('SEEDS', t)
block('NSEED', str(n)); 
block('NFIX', str(sum(l.startswith('fixed:') for l in open(V + '/known_findings.txt'))))
s = s.replace('<!-- NSEED -->\n', '<!-- NSEED -->').replace('\n<!-- /NSEED -->', '<!-- /NSEED -->')
s = s.replace('<!-- NFIX -->\n', '<!-- NFIX -->').replace('\n<!-- /NFIX -->', '<!-- /NFIX -->')
if os.path.exists(V + '/tools/costs.json'):
    c = json.load(open(V + '/tools/costs.json'))
    block('COSTS', '| ID | cost quick | cost thorough |\n|----|-----------:|--------------:|\n' + ''.join(
        '| %s | %d s | %d s |\n' % (k, v['quick'], v['thorough']) for k, v in sorted(c.items())))
open(p, 'w').write(s)
