#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and props.json from the table below (python3 tools/gen.py, in /verif)."""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))

TECH = 'contract-based deductive verification (own VC generator over go/ssa of /repo, SMT back ends) + bounded executable oracle'

P = []
def prop(id, title, statement, over, qtext, why, files, mech, note, level='proof', assumptions=(), na=None, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note, level=level, assumptions=list(assumptions), na=na, observe=list(observe)))

exec(open('tools/props_table.py').read())

with open('properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p['observe']: a['observe_at'] = p['observe']
        a['hook_needed'] = None
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['qtext']},
                            'why_tests_cant': p['why'], 'anchors': a}, ensure_ascii=False) + '\n')
checks, nap = [], []
for p in P:
    if p['na']:
        nap.append({'property': p['id'], 'reason': p['na']})
        continue
    checks.append({'property': p['id'], 'quick_cmd': f"bash run.sh check {p['id']} quick", 'thorough_cmd': f"bash run.sh check {p['id']} thorough",
                   'evidence_file': f"evidence/{p['id']}.json", 'technique': TECH if p['level'] == 'proof' else 'bounded executable oracle over contracts (stand-in)', 'level': p['level'], 'level_note': p['note']})
json.dump({'version': 1, 'setup_cmd': 'bash run.sh setup', 'checks': checks, 'not_applicable': nap,
           'notes': 'No hooks in /repo: the contracts live in contracts/*.gcv and are bound to the functions of /repo by name on every run; lemma functions are added to the packages through an overlay.'},
          open('MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
json.dump({p['id']: {'level': p['level'], 'assumptions': p['assumptions']} for p in P if not p['na']}, open('props.json', 'w'), indent=1, ensure_ascii=False)
print(len(checks), 'checks,', len(nap), 'not applicable')
