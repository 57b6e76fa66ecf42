#!/usr/bin/env python3
"""Rewrites MANIFEST.json and properties.jsonl from sa/catalog.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sa import catalog, registry      # noqa: E402

checks, na = [], []
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in catalog.PROPERTIES:
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
        if p.get('na'):
            na.append({'property': p['id'], 'reason': p['na']})
        else:
            assert p['id'] in registry.CHECKS, p['id']
            checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'],
                           'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                           'technique': p['technique'], 'level': 'other', 'level_note': p['level_note']})
json.dump({'version': 1, 'setup_cmd': 'python3 -c "import sys; sys.path.insert(0, \'.\'); from sa import model; model.Program()"',
           'checks': checks, 'not_applicable': na,
           'notes': 'Static analysis of /repo\'s current sources; see DESIGN.md. check.py PROPERTY decides one property.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
