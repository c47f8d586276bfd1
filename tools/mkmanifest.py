"""Writes MANIFEST.json from properties.jsonl and tools/levels.json."""
import json
import os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
lv = json.load(open(os.path.join(H, 'tools', 'levels.json')))
checks, na = [], []
for l in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(l)
    v = lv.get(p['id'], lv['default'])
    if 'not_applicable' in v:
        na.append(dict(property=p['id'], reason=v['not_applicable']))
        continue
    checks.append(dict(property=p['id'], quick_cmd='/opt/veriftools/pyvenv/bin/python check.py %s --tier quick' % p['id'],
                       thorough_cmd='/opt/veriftools/pyvenv/bin/python check.py %s --tier thorough' % p['id'],
                       technique=v['technique'], level=v['level'], level_note=v['note']))
json.dump(dict(version=1, setup_cmd=lv['setup'], checks=checks, not_applicable=na),
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
