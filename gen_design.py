#!/usr/bin/env python3
"""Writes DESIGN.md: design_head.md, a section per property (from the checks and design_notes.py) and design_tail.md."""
import json, os, re
import design_notes
H = os.path.dirname(os.path.abspath(__file__))
out = [open(os.path.join(H, 'design_head.md')).read()]


def const(text, name):
    m = re.search(r"^%s = (.*?)\n(?=\S)" % name, text, re.S | re.M)
    return eval(m.group(1)) if m else None


for l in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(l)
    t = open(os.path.join(H, 'pbt', 'checks', p['id'].lower() + '.py')).read()
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append('*Technique*: %s.\n' % const(t, 'TECHNIQUE'))
    out.append('*Case*: %s.\n' % const(t, 'RULE'))
    b = const(t, 'BUDGET') or {'quick': 60, 'thorough': 600}
    n = re.findall(r"'name': '([\w-]+)', 'prop': \w+, 'n': \{'quick': ([\d]+), 'thorough': ([\d]+)", t)
    out.append('*Bounds*: %s; at most %d s (quick), %d s (thorough).\n' % (
        '; '.join('%s: %s / %s cases' % x for x in n), b['quick'], b['thorough']))
    a = const(t, 'ASSUMPTIONS')
    if a:
        out.append('*Assumptions*: %s.\n' % '; '.join(a))
    out.append(design_notes.NOTES[p['id']].strip() + '\n')
catches = json.load(open(os.path.join(H, 'tools', 'seeds', 'catches.json')))
tab = ['| change | property | needs | quick check |', '|---|---|---|---|']
for s in sorted(os.listdir(os.path.join(H, 'seeded'))):
    m = json.load(open(os.path.join(H, 'seeded', s, 'meta.json')))
    tab.append('| %s | %s | %s | %s |' % (s, m['property'], m['needs'].replace('|', '/'),
                                           '%s by %s' % (catches.get(s, '?'), m['property'])))
out.append(open(os.path.join(H, 'design_tail.md')).read().replace('@@CATCHES@@', '\n'.join(tab)))
open(os.path.join(H, 'DESIGN.md'), 'w').write('\n'.join(out))
