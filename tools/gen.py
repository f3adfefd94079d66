#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (development tool; no check needs it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, technique, level_note, state=None, level='exploration'):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m} for n, m in state]
    P.append((dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': quant},
                   why_tests_cant=why, anchors=a), technique, level_note, level))


exec(open(os.path.join(V, 'tools', 'props.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p, _, _, _ in P:
        f.write(json.dumps(p) + '\n')
checks, na = [], []
for p, tech, note, level in P:
    i = p['id'].lower()
    if os.path.exists(os.path.join(V, 'checks', i + '.py')):
        checks.append({'property': p['id'], 'quick_cmd': 'python3 checks/%s.py quick' % i,
                       'thorough_cmd': 'python3 checks/%s.py thorough' % i,
                       'technique': tech, 'level': level, 'level_note': note})
    else:
        na.append({'property': p['id'], 'reason': 'no check is built for it yet'})
m = {'version': 1, 'setup_cmd': 'python3 -c "import sys; sys.path.insert(0, \'lib\'); import vlib, qdoc"',
     'hooks': {'guard': 'NONE', 'enable': 'No hooks were added to the sources: the monitors observe the real executable, its files and its system calls.',
               'source_commits': []},
     'checks': checks, 'not_applicable': na}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'without')
