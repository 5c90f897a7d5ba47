#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json.  One entry per property; those without a check are not_applicable."""
import json, os, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, level='other'):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, level=level))


exec(open(os.path.join(VERIF, 'tools', 'properties.py')).read())

with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': p['mech']}}) + '\n')

checks, na = [], []
for p in P:
    if os.path.exists(os.path.join(VERIF, 'checks', p['id'].lower() + '.py')) and not p['na']:
        c = 'python3 check.py %s' % p['id']
        checks.append({'property': p['id'], 'quick_cmd': c, 'thorough_cmd': c + ' --tier thorough',
                       'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
    else:
        na.append({'property': p['id'], 'reason': p['na'] or 'the static check for it is not built yet'})
json.dump({'version': 1, 'setup_cmd': 'python3 engine/build.py api.cpp', 'checks': checks, 'not_applicable': na},
          open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not applicable')
