#!/usr/bin/env python3
"""Replays a recorded counterexample on the natively built code: replay.py FILE (builds the harness first)."""
import json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
d = json.load(open(sys.argv[1]))
H = checks.CHECKS[d['property']]['harness']
subprocess.run([os.path.join(V, 'tools/prep.sh'), H], check=True)
with tempfile.TemporaryDirectory() as t:
    p = subprocess.run([os.path.join(V, 'build/native'), os.path.join(V, 'build', H, 'lib.so'), d['entry'], d['params'] or '-'],
                       input=' '.join(map(str, d['counterexample']['inputs'])), text=True, cwd=t, timeout=120)
print('exit status', p.returncode)
