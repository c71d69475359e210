#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os, re
H = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    src = os.path.join(H, 'pbt', 'checks', pid.lower() + '.py')
    if not os.path.exists(src):
        na.append({'property': pid, 'reason': 'No check has been built yet for this property.'})
        continue
    text = open(src).read()
    m = re.search(r"^TECHNIQUE = (.*?)\n(?=\S)", text, re.S | re.M)
    n = re.search(r"^NOTE = (.*?)\n(?=\S)", text, re.S | re.M)
    tech = eval(m.group(1)) if m else 'generated inputs against an independent reference model'
    note = eval(n.group(1)) if n else 'No counterexample among the generated cases counted in the evidence.'
    checks.append({'property': pid,
                   'quick_cmd': 'bash check.sh %s quick' % pid,
                   'thorough_cmd': 'bash check.sh %s thorough' % pid,
                   'evidence_file': 'evidence/%s.json' % pid,
                   'technique': 'property-based testing: ' + tech,
                   'level': 'exploration',
                   'level_note': note + ' Trusted: the generators and oracles under pbt/, and the PyPy 3.9 interpreter.'})
json.dump({'version': 1,
           'setup_cmd': '/opt/venv-pypy/bin/python -B -c "import sys"',
           'checks': checks, 'not_applicable': na,
           'notes': 'check.sh runs pbt/main.py, which imports gerber from /repo\'s working tree; nothing needs building.'},
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', [x['property'] for x in na])
