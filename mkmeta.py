#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, os
from props import PROPS
from checks import CHECKS
D = os.path.dirname(os.path.abspath(__file__))
NA = {}
with open(os.path.join(D, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({k: v for k, v in p.items() if k not in ('tech', 'note')}) + '\n')
m = dict(version=1, setup_cmd='python3 setup.py',
         checks=[dict(property=p['id'], quick_cmd='python3 run.py ' + p['id'], thorough_cmd='python3 run.py %s --thorough' % p['id'],
                      technique=p['tech'], level='exploration', level_note=p['note']) for p in PROPS if p['id'] in CHECKS],
         not_applicable=[dict(property=p['id'], reason=NA.get(p['id'], 'Runtime monitoring applies; the check is still under construction, so nothing is claimed yet.'))
                         for p in PROPS if p['id'] not in CHECKS],
         notes='No hooks: the library is header-only, so every observation is made at its public interface. known_findings.txt lists repaired and open findings.')
json.dump(m, open(os.path.join(D, 'MANIFEST.json'), 'w'), indent=1)
for p in PROPS:
    assert len(p['title']) <= 80, p['title']
    assert p['statement'].count('. ') <= 2, p['id']
