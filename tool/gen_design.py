#!/usr/bin/env python3
"""Rewrites the generated half of DESIGN.md: sections of the properties, planted bugs, findings."""
import glob
import importlib
import json
import os
import re
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/tool', V + '/engine', V + '/props']
from props import PROPS, NOT_APPLICABLE
MARK = '<!-- generated by tool/gen_design.py from here on -->'


def rules(pid):
    src = open('%s/props/%s.py' % (V, pid.lower())).read()
    out = []
    for m in re.finditer(r"R\.rule\(((?:\s*'(?:[^'\\]|\\.)*')+)\)", src):
        out.append(''.join(eval(x) for x in re.findall(r"'(?:[^'\\]|\\.)*'", m.group(1))))
    return out


t = [MARK, '', '## The properties, one by one', '']
for p in PROPS:
    t += ['### %s %s' % (p['id'], p['title']), '', p['statement'], '',
          '*Quantifies over* %s. *Out of reach of tests:* %s' % (p['text'], p['why']), '',
          '*How it is decided* (%s):' % p['technique'], '']
    t += ['- ' + r for r in rules(p['id'])]
    a = getattr(importlib.import_module(p['id'].lower()), 'ASSUMPTIONS', ())
    note = p['note'].split('never as violations. ')[-1]
    t += ['', '*Limits:* ' + note + ''.join(' ' + x for x in a)]
    e = V + '/evidence/%s.json' % p['id']
    t += ['']
t += ['## Not applicable', '']
for p in NOT_APPLICABLE:
    t += ['- **%s %s**: %s' % (p['id'], p['title'], p['reason'])]
t += ['', '## Planted bugs and what catches them', '', '| planted bug | property (caught by its check) | needs | breaks |',
      '|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    t += ['| %s | %s | %s | %s |' % (d.split('/')[-2], m['property'] + (' - not caught' if m.get('caught') is False else ''),
                                     m['needs'], m['what_it_breaks'])]
t += ['', '## Defects found in apiaryio/drafter', '']
for ln in open(V + '/known_findings.txt'):
    if ln.startswith(('fixed:', 'known:')):
        t += ['- ' + ln.strip()]
p = V + '/DESIGN.md'
s = open(p).read().split(MARK)[0].rstrip() + '\n\n'
open(p, 'w').write(s + '\n'.join(t) + '\n')
