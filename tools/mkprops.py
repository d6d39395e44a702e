#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, claimed=True, technique='', note='', na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe,
                  technique=technique, note=note, na=na, state=state or []))


T = 'exploration of generated cases; trusts the generator, '
exec(open(os.path.join(V, 'tools', 'props_table.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'state': p['state'],
                                        'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                                        'observe_at': p['observe'], 'hook_needed': None}}) + '\n')

checks, na = [], []
for p in P:
    have = os.path.exists(os.path.join(V, 'vf', 'checks', p['id'] + '.py'))
    if p['na'] or not have:
        na.append({'property': p['id'], 'reason': p['na'] or 'check not built yet'})
    else:
        checks.append({'property': p['id'], 'quick_cmd': 'bin/check %s --tier quick' % p['id'],
                       'thorough_cmd': 'bin/check %s --tier thorough' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': 'exploration',
                       'level_note': p['note']})
json.dump({'version': 1, 'setup_cmd': 'bin/setup', 'hooks': {'guard': 'verif', 'enable': 'no hooks are used: the checks build /repo as it is '
           '(harness packages enter through go build -overlay)', 'source_commits': []},
           'checks': checks, 'not_applicable': na,
           'notes': 'All checks run from /verif, rebuild the prover from /repo/src, and are seeded by VERIF_SEED.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
