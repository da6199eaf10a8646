#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run it after editing."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def P(id, title, statement, over, qtext, why, files, mech, technique, note, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': w} for n, w in state]
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': qtext},
                      why_tests_cant=why, anchors=a, _technique=technique, _note=note))


def NOT(id, title, statement, over, qtext, why, files, mech, reason):
    P(id, title, statement, over, qtext, why, files, mech, None, None)
    NA.append({'property': id, 'reason': reason})


exec(open(os.path.join(V, 'tools', 'props.py'), encoding='utf-8').read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}, ensure_ascii=False) + '\n')
checks = []
for p in PROPS:
    if p['_technique'] is None:
        continue
    checks.append({'property': p['id'],
                   'quick_cmd': f"python3 check.py {p['id']} --tier quick",
                   'thorough_cmd': f"python3 check.py {p['id']} --tier thorough",
                   'evidence_file': f"evidence/{p['id']}.json",
                   'technique': p['_technique'], 'level': 'other', 'level_note': p['_note']})
man = {'version': 1, 'setup_cmd': 'python3 -m compileall -q sa check.py', 'checks': checks, 'not_applicable': NA,
       'notes': 'Pure static analysis of /repo/specula (Python 3.12 standard library only); nothing of /repo is imported or executed by a check. '
                'Findings recorded in known_findings.txt.'}
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
