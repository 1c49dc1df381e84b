#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks present."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(os.path.join(here, 'tools', 'level_notes.json')))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists(os.path.join(here, 'checks', pid.lower() + '.py')):
        n = notes[pid]
        checks.append(dict(
            property=pid,
            quick_cmd='/opt/venv/bin/python run.py %s' % pid,
            thorough_cmd='/opt/venv/bin/python run.py %s --thorough' % pid,
            evidence_file='evidence/%s.json' % pid,
            technique=n[0], level='exploration', level_note=n[1]))
    else:
        na.append(dict(property=pid, reason='no check'))
m = dict(version=1,
         setup_cmd='/opt/venv/bin/python tools/selfcheck.py',
         checks=checks, not_applicable=na,
         notes='Property-based testing (Hypothesis-generated cases, explicit '
               'oracles, real MPI process pools). See DESIGN.md.')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
