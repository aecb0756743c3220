#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the tables below (engine/meta.py, run by hand)"""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, tests, files, mech, observe=None, note='', level='proof', na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech, observe=observe or [], note=note, level=level, na=na, state=state or []))
exec(open(os.path.join(V, 'engine', 'properties.py')).read())
with open(f'{V}/properties.jsonl', 'w') as f:
    for p in P:
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], observe_at=p['observe'], hook_needed=None)
        if p['state']: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in p['state']]
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['tests'], anchors=a)) + '\n')
checks = []; na = []
for p in P:
    if p['na']: na.append(dict(property=p['id'], reason=p['na'])); continue
    if not glob.glob(f'{V}/contracts/{p["id"]}_*.cpp'): na.append(dict(property=p['id'], reason='no contracts written yet')); continue
    checks.append(dict(property=p['id'], quick_cmd=f'python3 check.py {p["id"]}', thorough_cmd=f'python3 check.py {p["id"]}', technique='contract-based deductive verification: contracts on the real C++ code, verification conditions generated from its LLVM IR, discharged by z3/cvc5', level=p['level'], level_note=p['note']))
json.dump(dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na,
  notes='No hooks in /repo: contracts include the real headers and sources. HighFive is not installed here, so /verif/stubs provides empty declarations of it; no HDF5 code is under contract.'), open(f'{V}/MANIFEST.json', 'w'), indent=1)
