#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py; a property is claimed when checks/<id>.py exists."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from props import PROPS
try:
    from props import NA
except ImportError:
    NA = {}
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as h:
    for p in PROPS:
        h.write(json.dumps({k: v for k, v in p.items() if k not in ('technique', 'note')}) + '\n')
checks, na = [], []
for p in PROPS:
    assert len(p['title']) <= 80, p['id']
    assert len(p['statement'].split('. ')) <= 3, p['id']
    if os.path.exists(os.path.join(ROOT, 'checks', p['id'] + '.py')):
        checks.append({'property': p['id'], 'quick_cmd': 'python3-vt check.py %s quick' % p['id'], 'thorough_cmd': 'python3-vt check.py %s thorough' % p['id'],
                       'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']})
    else:
        na.append({'property': p['id'], 'reason': NA.get(p['id'], 'no sound monitor built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3-vt check.py --setup',
           'hooks': {'guard': 'none', 'enable': 'no hooks: the checks build /repo unmodified with sanitizers, an out-of-tree cmake include (build/inject.cmake) and a scheduler shim for TBB headers (shim/)', 'source_commits': []},
           'checks': checks, 'not_applicable': na}, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
