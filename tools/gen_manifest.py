#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from registry import CHECKS, NOT_APPLICABLE, HARNESSES
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in props:
    if p not in CHECKS:
        continue
    c = CHECKS[p]
    checks.append({'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'python3 check.py ' + p + ' --tier thorough',
                   'evidence_file': 'evidence/%s.json' % p, 'technique': c.get('technique', 'stateless model checking of the implementation against a reference model'),
                   'level': c.get('level', 'model_checking'), 'level_note': c.get('note') or c.get('method')})
na = [{'property': p, 'reason': NOT_APPLICABLE.get(p, 'check not built yet')} for p in props if p not in CHECKS]
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh',
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the harnesses compile /repo\'s sources with stand-ins for ROS and, for the concurrency checks, with compiler instrumentation whose run-time is the scheduler.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
