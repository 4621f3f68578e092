#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl and checks/registry.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + '/checks')
import registry
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.CHECKS:
        c = registry.CHECKS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 run.py check %s quick' % i,
                       'thorough_cmd': 'python3 run.py check %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': c.get('technique', 'bounded exhaustive model checking: explicit-state reference model of the drafts, every model state replayed on the real code'),
                       'level': c['level'],
                       'level_note': c.get('note', 'Complete enumeration of the bounded schema and document families in DESIGN.md on the real headers; '
                                                   'trusts the reference model in lib/ and the compiler. Nothing is claimed outside the bounds.')})
    else:
        na.append({'property': i, 'reason': registry.NOT_APPLICABLE.get(i, 'No check built yet.')})
m = {'version': 1, 'setup_cmd': 'python3 run.py setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the explorers include the headers directly. run.py replay FILE re-executes a reported case.'}
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
open(H + '/MANIFEST.json', 'a').write('\n')
