"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing the table)."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique, note, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note, observe=list(observe)))

exec(open(os.path.join(V, 'lib', 'proptable.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p['observe']: a['observe_at'] = p['observe']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['qtext']},
                            'why_tests_cant': p['why'], 'anchors': a}) + '\n')
checks = []
for p in P:
    if not os.path.exists(os.path.join(V, 'checks', p['id'] + '.py')): print('no check for', p['id']); continue
    checks.append({'property': p['id'], 'quick_cmd': './check %s --tier quick' % p['id'], 'thorough_cmd': './check %s --tier thorough' % p['id'],
                   'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']})
m = {'version': 1, 'setup_cmd': 'bash lib/setup.sh', 'checks': checks, 'not_applicable': [],
     'notes': 'No hooks: every check compiles /repo\'s sources (with AddressSanitizer and UBSan) into a scratch directory and drives the public C API, the ohcount program or the Ruby binding. '
              'VERIF_SEED seeds every random choice; known findings are in known-findings.txt; --replay FILE re-decides one recorded case.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
