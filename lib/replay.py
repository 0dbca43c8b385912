#!/usr/bin/env python3
"""replay.py FILE: rebuild /repo and re-run one recorded counterexample on the real code."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
r = json.load(open(sys.argv[1]))
import vlib
c = vlib.Check(r['property'], 'replay', 1, 'model_checking', [], [], [])
(c.pyjob if r.get('py') else c.job)(r['harness'], **r['config'])
if not r.get('py'): b = vlib.Builder(c.scratch); b.compile_all([r['harness']], symbolic=False)
nat = c._native(c.jobs[0], r['assignment'], 'replay')
for f in nat['fails'][:20]: print('FAIL %s: %s != %s' % tuple(f))
if nat['asan']: print(nat['stderr'])
bad = bool(nat['fails'] or nat['asan'] or not (nat['done'] or nat.get('skip')))
print('reproduced' if bad else 'not reproduced'); 
import shutil; shutil.rmtree(c.scratch, ignore_errors=True)
sys.exit(1 if bad else 0)
