#!/usr/bin/env python3
"""setup: the tools the checks need are there, and the verifier gives the known
verdicts on engine/selftest/selftest.cpp"""
import os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/veriftools/pyvenv/bin/python3'
for t in ['clang++-18', '/usr/lib/llvm-18/bin/opt', PY, 'cvc5']:
    r = subprocess.run(['sh', '-c', 'command -v ' + t], capture_output=True)
    if r.returncode:
        print('missing tool:', t); sys.exit(1)
os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
r = subprocess.run([PY, os.path.join(V, 'engine', 'verify.py'), os.path.join(V, 'engine', 'selftest', 'selftest.cpp'), '-b', '60'],
                   capture_output=True, text=True)
wrong = n = 0
for l in r.stdout.splitlines():
    m = re.match(r'lvc_(ok|bad)_(\w+)\s+(proved|failed|undecided|vacuous)', l)
    if m:
        n += 1
        ok = m.group(3) == ('proved' if m.group(1) == 'ok' else 'failed')
        if not ok:
            print('verdict of the verifier on %s_%s: %s' % m.groups())
            wrong += m.group(3) in ('proved', 'failed')
print('self test: %d contracts, %d wrong' % (n, wrong))
sys.exit(1 if wrong or n == 0 else 0)
