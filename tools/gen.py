#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py (run from /verif)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = {p['id'] for p in PROPS}
na = dict(NOT_APPLICABLE)
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        d = {'id': p['id'], 'title': p['title'], 'statement': p['stmt'],
             'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                         'hook_needed': p['hook']}}
        assert len(p['title']) <= 80, p['title']
        for x in p['files']:
            if not os.path.exists('/repo/' + x):
                print('missing anchor', p['id'], x)
        f.write(json.dumps(d) + '\n')
checks, nas = [], []
for p in PROPS:
    if p['id'] in na:
        nas.append({'property': p['id'], 'reason': na[p['id']]})
        continue
    if not os.path.exists('%s/checks/%s.py' % (V, p['id'])):
        nas.append({'property': p['id'], 'reason': 'no check built yet'})
        continue
    cmd = 'python3 checks/%s.py' % p['id']
    checks.append({'property': p['id'], 'quick_cmd': cmd, 'thorough_cmd': 'VERIF_TIER=thorough ' + cmd,
                   'technique': p['tech'], 'level': p['level'], 'level_note': p['note']})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': nas,
     'notes': 'No hooks in /repo: every check copies /repo\'s working tree to a scratch directory, builds it there and drives exported interfaces.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(nas), 'not claimed')

# ---- DESIGN.md
import subprocess
T = os.path.join(V, 'tools')
out = [open(T + '/design_head.md').read().rstrip() + '\n']
claimed = {c['property'] for c in checks}
for p in PROPS:
    out.append('### %s  %s\n' % (p['id'], p['title']))
    if p['id'] in na:
        out.append('Not applicable: %s\n' % na[p['id']])
        continue
    out.append('*Specified*: %s\n' % p['stmt'])
    out.append('*Decided by*: %s.  *Explored*: %s.' % (p['tech'], p['qtext']))
    if p['design']:
        out.append(p['design'])
    out.append('*Bounds*: %s  *Beyond the tests*: %s' % (p['note'], p['why']))
    out.append('' if p['id'] in claimed else '(No check built yet.)')
    out.append('')
out.append('## Genuine defects found\n')
out.append('Each repair is one `fix:` commit in /repo; open findings are listed in known-findings.txt and printed as KNOWN-FINDING.\n')
for ln in open(V + '/known-findings.txt'):
    if ln.startswith(('fixed:', 'known:')):
        out.append('* ' + ln.strip().replace('*', '\\*'))
out.append('\n## Planted bugs\n')
caught = {}
cf = T + '/caught.json'
if os.path.exists(cf):
    caught = json.load(open(cf))
for d in sorted(os.listdir(V + '/seeded')):
    m = V + '/seeded/%s/meta.json' % d
    if os.path.exists(m):
        m = json.load(open(m))
        out.append('* **%s** (%s) %s; needs %s.  %s' % (d, m['property'], m['what_it_breaks'], m['needs'], caught.get(d, '')))
out.append('')
tail = open(T + '/design_tail.md').read()
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n' + tail)
