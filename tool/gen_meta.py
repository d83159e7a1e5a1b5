#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tool/props.py (run by hand after editing it)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(HERE)
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS + NOT_APPLICABLE:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p.get('over', ['inputs']), 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'hook_needed': None}}, ensure_ascii=False) + '\n')
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': []}
for p in PROPS:
    m['checks'].append({'property': p['id'], 'quick_cmd': './check.py %s --tier quick' % p['id'],
                        'thorough_cmd': './check.py %s --tier thorough' % p['id'],
                        'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
for p in NOT_APPLICABLE:
    m['not_applicable'].append({'property': p['id'], 'reason': p['reason']})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open(V + '/MANIFEST.json', 'a').write('\n')
import jsonschema
S = '/root/.vp/'
jsonschema.validate(m, json.load(open(S + 'MANIFEST.schema.json')))
for ln in open(V + '/properties.jsonl'):
    jsonschema.validate(json.loads(ln), json.load(open(S + 'PROPERTIES.schema.json')))
print(len(PROPS), 'claimed', len(NOT_APPLICABLE), 'not applicable')
