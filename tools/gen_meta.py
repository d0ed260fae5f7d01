#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/meta_*.py (run after editing a table)."""
import importlib.util
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from meta_props import PROPS, NOT_APPLICABLE, NOTES

with open(os.path.join(V, 'properties.jsonl'), 'w', encoding='utf-8') as f:
    for p in PROPS:
        anchors = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                   'observe_at': p['observe'], 'hook_needed': None}
        if p.get('state'):
            anchors['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']]
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['qtext']},
                            'why_tests_cant': p['why'], 'anchors': anchors}, ensure_ascii=False) + '\n')
checks = []
na = [dict(property=a, reason=b) for a, b in NOT_APPLICABLE]
for p in PROPS:
    if any(n['property'] == p['id'] for n in na):
        continue
    assert os.path.exists(os.path.join(V, 'checks', p['id'] + '.py')), p['id']
    checks.append({'property': p['id'], 'quick_cmd': './check %s --tier quick' % p['id'],
                   'thorough_cmd': './check %s --tier thorough' % p['id'], 'evidence_file': 'evidence/%s.json' % p['id'],
                   'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na, 'notes': NOTES}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
print(len(PROPS), 'properties', len(checks), 'checks')
