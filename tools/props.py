#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (one place to keep them in step)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, CHECKS, NA = [], [], []
def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, level='other', state=None):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if state: d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]
    P.append(d)
    if na: NA.append({'property': id, 'reason': na})
    else:
        CHECKS.append({'property': id, 'quick_cmd': './check.sh ' + id, 'thorough_cmd': './check.sh %s thorough' % id, 'evidence_file': 'evidence/%s.json' % id,
                       'technique': technique, 'level': level, 'level_note': note})
exec(open(os.path.join(V, 'tools', 'props_data.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for d in P: f.write(json.dumps(d) + '\n')
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': CHECKS, 'not_applicable': NA}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
