#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/checks.py and properties.jsonl."""
import json, sys
sys.path.insert(0, '/verif/bin')
from checks import CHECKS, NOTES, NA
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
m = dict(version=1, setup_cmd='bin/setup', checks=[], not_applicable=[],
         notes='TLA+ with TLC. Every check explores a design model, executes its exported plans and seeded cases against /repo and validates the recorded sessions against a trace specification.')
for p in props:
    i = p['id']
    if i in CHECKS:
        m['checks'].append(dict(property=i, quick_cmd='bin/check %s quick' % i, thorough_cmd='bin/check %s thorough' % i,
            technique='TLA+ specification explored with TLC; its behaviours replayed into the library and recorded sessions validated against it by TLC', level='model_checking', level_note=NOTES.get(i, NOTES['*'])))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'not decided yet: the check is under construction')))
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')
