#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'tools'), os.path.join(V, 'harness')]
from props import PROPS
from checks import CHECKS

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id'] + ' title'
        a = {'files': p['files'], 'mechanism': p['mechanism'], 'hook_needed': None}
        if p['observe']:
            a['observe_at'] = p['observe']
        for x in p['files']:
            assert os.path.exists('/repo/' + x), x
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['over_text']},
                            'why_tests_cant': p['why'], 'anchors': a}) + '\n')
checks = []
for p in PROPS:
    c = CHECKS.get(p['id'])
    if not c:
        continue
    note = p['note'] or ('Randomised search from a fixed seed against an explicit oracle, with shrinking; finds counterexamples, does not prove absence. '
                         'Assumes the C++ library, ICU, Boost and the sanitizer run times are right.')
    checks.append({'property': p['id'], 'quick_cmd': 'python3 run_check.py %s quick' % p['id'], 'thorough_cmd': 'python3 run_check.py %s thorough' % p['id'],
                   'technique': 'property-based testing: ' + p['technique'], 'level': c.get('level', 'exploration'), 'level_note': note})
m = {'version': 1, 'setup_cmd': 'python3 run_check.py setup', 'checks': checks,
     'not_applicable': [{'property': p['id'], 'reason': p.get('na') or 'check not built yet'} for p in PROPS if p['id'] not in CHECKS],
     'hooks': {'guard': 'none', 'enable': 'no hooks: the harnesses compile the unmodified headers and sources of /repo', 'source_commits': []},
     'notes': 'run_check.py builds each harness from /repo/src/main/cpp into a scratch directory and removes it afterwards. Replays: python3 run_check.py replay <file>.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open(os.path.join(V, 'properties.jsonl')):
    jsonschema.validate(json.loads(l), s)
print(len(PROPS), 'properties', len(checks), 'checks')
