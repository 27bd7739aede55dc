#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from f2cv/props.py"""
import json
import os
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from f2cv import props
with open(H + '/properties.jsonl', 'w') as f:
    for pid, p in sorted(list(props.PROPS.items()) + [(k, v[0]) for k, v in props.NOT_APPLICABLE.items()]):
        assert len(p['title']) <= 80, pid
        f.write(json.dumps({'id': pid, 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
m = {'version': 1, 'setup_cmd': 'true',
     'checks': [{'property': pid, 'quick_cmd': 'python3-vt check.py %s' % pid, 'thorough_cmd': 'python3-vt check.py %s thorough' % pid, 'evidence_file': 'evidence/%s.json' % pid,
                 'technique': props.TECH, 'level': p.get('level', 'proof'), 'level_note': p['note']} for pid, p in sorted(props.PROPS.items())],
     'not_applicable': [{'property': k, 'reason': v[1]} for k, v in sorted(props.NOT_APPLICABLE.items())],
     'notes': 'No hooks in /repo: contracts live in /verif/specs and are attached to the functions of the current source by qualified name on every run.'}
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
