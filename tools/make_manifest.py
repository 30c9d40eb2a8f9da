#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from tools/properties.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
ROOT = os.path.dirname(HERE)
from properties import P

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                        'hook_needed': None}}) + '\n')

checks, na = [], []
for p in P:
    if os.path.exists(os.path.join(ROOT, 'checks', p['id'].lower() + '.py')):
        cmd = '/opt/venv/bin/python check.py ' + p['id']
        checks.append({'property': p['id'], 'quick_cmd': cmd + ' --tier quick',
                       'thorough_cmd': cmd + ' --tier thorough',
                       'evidence_file': 'evidence/%s.json' % p['id'],
                       'technique': 'property-based testing and fuzzing: ' + p['technique'],
                       'level': p['level'], 'level_note': p['note']})
    else:
        na.append({'property': p['id'], 'reason': 'the check is not written yet'})
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python check.py --selftest',
               'checks': checks, 'not_applicable': na,
               'notes': 'The checks import the Python code from /repo directly; nothing is built. '
                        'No hooks in /repo.'}, f, indent=1)
    f.write('\n')
print(len(checks), 'claimed,', len(na), 'not')
for p in P:
    assert len(p['title']) <= 80, p['id']
