"""Writes the table of contracts into DESIGN.md, between its two markers (run with python3-vt)."""
import collections
import importlib
import json
import os
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(H, 'prove'), os.path.join(H, 'contracts')]
for m in sorted(f[:-3] for f in os.listdir(os.path.join(H, 'contracts')) if f.endswith('.py') and f != 'dsl.py'):
    importlib.import_module(m)
import dsl
by = collections.defaultdict(list)
for e in dsl.REGISTRY:
    for p in e.props:
        if e.fn not in by[p]:
            by[p].append(e.fn)
lv = json.load(open(os.path.join(H, 'tools', 'levels.json')))
rows = ['| id | level | functions under contract (all obligations discharged on every run) | what is left, and how |', '|---|---|---|---|']
for l in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(l)['id']
    fs = [f for f in by.get(p, []) if '.' not in f]
    ms = [f for f in by.get(p, []) if '.' in f]
    v = lv.get(p, lv['default'])
    names = '%d functions (those of the other rows)' % len(fs) if p == 'C20' else ', '.join('`%s`' % f for f in sorted(fs)) or 'none'
    if ms:
        names += '; methods ' + ', '.join('`%s`' % f for f in sorted(ms))
    rows.append('| %s | %s | %s | %s |' % (p, v['level'], names, v['note'].replace('|', '/')))
f = os.path.join(H, 'DESIGN.md')
s = open(f).read()
a, b = '<!-- table -->\n', '<!-- end of table -->\n'
i, j = s.index(a) + len(a), s.index(b)
open(f, 'w').write(s[:i] + '\n'.join(rows) + '\n' + s[j:])
print(len(dsl.REGISTRY), 'contracts')
