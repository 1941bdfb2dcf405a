#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ('contract-based deductive verification: contracts on the real headers, verification conditions '
        'generated from their LLVM IR on every run and discharged by z3/cvc5')
NOTE = ('All obligations of the listed contracts are discharged for all values, functions and counts the contract '
        'quantifies over; template code is verified at opaque instantiations. Trusted: clang front end, the VC generator in '
        'engine/, z3/cvc5, allocation never fails. ')
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, state=(), note='', claim=True, na=None, observe=()):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d['anchors']['observe_at'] = list(observe)
    P.append((d, note, na))


exec(open(os.path.join(V, 'tools', 'proptable.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for d, n, na in P:
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d, ensure_ascii=False) + '\n')
checks = []
for d, n, na in P:
    if na:
        continue
    i = d['id']
    checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
                       technique=TECH, level='proof', level_note=NOTE + n))
m = dict(version=1, setup_cmd='python3 tools/selftest.py', checks=checks,
         not_applicable=[dict(property=d['id'], reason=na) for d, n, na in P if na],
         notes='See DESIGN.md. No hooks in /repo are needed: contracts are written over the public headers, which are compiled unmodified.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
