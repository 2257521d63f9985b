#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from props import P, NA

checks, na = [], []
ids = set()
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in sorted(P + NA, key=lambda p: p['id']):
        assert p['id'] not in ids and len(p['title']) <= 80, p['id']
        ids.add(p['id'])
        pp = {'id': p['id'], 'title': p['title'], 'statement': ' '.join(p['statement'].split()),
              'quantifier': {'over': p['over'], 'text': ' '.join(p['quant'].split())},
              'why_tests_cant': ' '.join(p['why'].split()),
              'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                          'observe_at': p.get('obs', []), 'hook_needed': None}}
        if 'state' in p: pp['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']]
        assert pp['statement'].count('. ') <= 2, (p['id'], pp['statement'])
        f.write(json.dumps(pp) + '\n')
        if 'technique' in p:
            assert os.path.exists(os.path.join(ROOT, 'checks', p['id'].lower() + '.py')), p['id']
            checks.append({'property': p['id'], 'quick_cmd': './check %s' % p['id'], 'thorough_cmd': './check %s' % p['id'],
                           'technique': p['technique'], 'level': 'other', 'level_note': ' '.join(p['note'].split()),
                           'evidence_file': 'evidence/%s.json' % p['id']})
        else:
            na.append({'property': p['id'], 'reason': ' '.join(p['reason'].split())})
json.dump({'version': 1, 'setup_cmd': 'bash tools/build.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'All checks are static: they compile /repo to LLVM IR and analyse it, and never run slimcc. '
                    'VERIF_TIER=thorough widens the number of abstract states kept apart.'},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not applicable')
D = os.path.join(ROOT, 'DESIGN.md')
t = open(D).read()
a, b = '<!-- table -->', '<!-- /table -->'
if a in t:
    out = [a]
    for p in sorted(P, key=lambda p: p['id']):
        out.append('### %s %s\n\n%s\n\nDecided by: %s. %s\n' % (p['id'], p['title'], ' '.join(p['how'].split()) if 'how' in p else '', p['technique'], ' '.join(p['note'].split())))
    out.append('### Not applicable\n')
    for p in sorted(NA, key=lambda p: p['id']): out.append('- %s %s: %s' % (p['id'], p['title'], ' '.join(p['reason'].split())))
    out.append(b)
    t = t[:t.index(a)] + '\n'.join(out) + t[t.index(b) + len(b):]
    # seeded table
    sd = os.path.join(ROOT, 'seeded')
    rows = []
    for n in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open(os.path.join(sd, n, 'meta.json')))
        rows.append('| %s | %s | %s |' % (n, m['property'], m['what_it_breaks']))
    a, b = '<!-- seeded -->', '<!-- /seeded -->'
    if a in t:
        t = t[:t.index(a)] + a + '\n| change | property | breaks |\n|---|---|---|\n' + '\n'.join(rows) + '\n' + b + t[t.index(b) + len(b):]
    open(D, 'w').write(t)
