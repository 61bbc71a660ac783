#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/config.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from config import PROPS
import config
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl') if l.strip()]
na = getattr(config, 'NOT_APPLICABLE', {})
checks = []
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 tools/check.py %s quick' % i, 'thorough_cmd': 'python3 tools/check.py %s thorough' % i,
                       'technique': c.get('technique', 'contract-based deductive verification (Verus on code extracted from /repo), bounded stand-in for what surrounds it'),
                       'level': c['level'], 'level_note': c.get('note', c['explanation'])})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks,
           'not_applicable': [{'property': i, 'reason': na.get(i, 'not yet under contract')} for i in ids if i not in PROPS],
           'notes': 'See DESIGN.md. No hooks: the checks read /repo as it is.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
