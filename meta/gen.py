#!/usr/bin/env python3
"""writes properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md from props.py"""
import json, os, sys
D = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(D)
sys.path.insert(0, D)
from props import PROPS, NA
out = []; checks = []; na = []
for p in PROPS:
    j = {'id': p['id'], 'title': p['title'], 'statement': ' '.join(p['statement'].split()),
         'quantifier': {'over': p['over'], 'text': ' '.join(p['quant'].split())},
         'why_tests_cant': ' '.join(p['why'].split()),
         'anchors': {'files': ['homog2d.hpp'], 'state': [dict(name=a, meaning=b, where='homog2d.hpp') for a, b in p.get('state', [])],
                     'mechanism': [dict(name=a, where='homog2d.hpp: ' + b) for a, b in p['mech']], 'observe_at': p.get('observe', ['public API']), 'hook_needed': None}}
    assert len(j['title']) <= 80, j['title']
    out.append(json.dumps(j))
    if p['id'] in NA: na.append({'property': p['id'], 'reason': ' '.join(NA[p['id']].split())})
    else:
        checks.append({'property': p['id'], 'quick_cmd': './check.sh %s quick' % p['id'], 'thorough_cmd': './check.sh %s thorough' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': 'other', 'level_note': ' '.join(p['note'].split())})
open(V + '/properties.jsonl', 'w').write('\n'.join(out) + '\n')
m = {'version': 1, 'setup_cmd': 'bash tool/build.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks are static: a libTooling extractor (tool/h2dfacts.cpp) parses the current /repo/homog2d.hpp through driver/main.cpp, which instantiates the public API, in several build configurations; the rules in rules/ decide on the resolved program. No hook is needed in /repo.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
# DESIGN.md: keep the hand-written part above the marker
mk = '<!-- generated: per-property design -->'
f = V + '/DESIGN.md'
head = open(f).read().split(mk)[0] if os.path.exists(f) else '# Design\n\n'
b = [head.rstrip() + '\n\n' + mk + '\n\n## Properties\n']
for p in PROPS:
    b.append('### %s %s\n' % (p['id'], p['title']))
    b.append(' '.join(p['statement'].split()) + '\n')
    if p['id'] in NA: b.append('**Not applicable.** ' + ' '.join(NA[p['id']].split()) + '\n')
    else:
        b.append('*Technique*: %s.\n' % p['technique'])
        b.append('*How it is decided*: ' + ' '.join(p['design'].split()) + '\n')
        b.append('*Limits and assumptions*: ' + ' '.join(p['note'].split()) + '\n')
        b.append('*Beyond the tests*: ' + ' '.join(p['why'].split()) + '\n')
open(f, 'w').write('\n'.join(b))
