#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = 'Bounded: every assertion is decided by exact normal form or the SMT solver for all values on every feasible path within the bounds in the evidence file. Trusts the type-substitution engine (validated by replaying path witnesses on the native build), exact-real arithmetic in place of rounding, and the FFTW/GSL stubs.'
PYNOTE = 'Bounded: the real Python functions are executed on symbolic values and every assertion is decided by z3 for all values on each feasible path within the bounds in the evidence file. Trusts the proxy engine (validated by replaying path witnesses on the unmodified module with plain numbers) and exact-real arithmetic in place of rounding.'
CLAIMED = {'C01': 'cpp', 'C02': 'cpp', 'C03': 'cpp', 'C04': 'cpp', 'C05': 'cpp', 'C06': 'cpp', 'C07': 'cpp', 'C08': 'cpp', 'C09': 'cpp', 'C10': 'cpp', 'C11': 'cpp', 'C13': 'cpp', 'C14': 'cpp', 'C17': 'cpp', 'C20': 'cpp', 'C22': 'cpp', 'C12': 'py', 'C15': 'both', 'C16': 'both', 'C18': 'py', 'C19': 'py', 'C23': 'py'}
NA = {'C21': 'The symbolic builds execute OpenMP regions serially (pragmas ignored). Deciding thread schedules would need the outlined parallel regions together with the OpenMP runtime (loop scheduling, atomics, reductions, critical sections) of C++ code using STL containers, FFTW and GSL to be encoded with interleavings; CBMC cannot parse this C++ and no encoding of it was within reach, so no verdict over schedules is given.'}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMED:
        py = CLAIMED[i] == 'py'
        checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i, technique='symbolic execution of the real %s with SMT (z3) discharge' % ('Python source' if py else 'C++ source' if CLAIMED[i] == 'cpp' else 'C++ and Python source'), level='model_checking', level_note=PYNOTE if py else NOTE))
    else: na.append(dict(property=i, reason=NA.get(i, 'No check built yet.')))
json.dump(dict(version=1, setup_cmd='python3 -c "import sys"', checks=checks, not_applicable=na, notes='See DESIGN.md.'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
