#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'pbt', 'props'))
from meta import META
TECH = {
 'C10': 'stateful property-based testing against a model', 'C30': 'stateful property-based testing of rejected requests',
 'C28': 'property-based testing of thread schedules, differential to serial runs',
 'C27': 'property-based fuzzing on an address-sanitised, poisoned, bounds-checked build',
 'C21': 'property-based fault injection on files, and round trips',
 'C20': 'property-based testing, round trip and an independent parser', 'C22': 'property-based testing against an independent parser',
 'C11': 'stateful property-based testing of aliasing',
}
NOTE = {
 'C02': 'One recorded finding (fourth derivative of curves) is accepted only with exactly the values it gives.',
 'C26': 'Trusts that the libraries behind the backends draw what they are handed; mayavi is not installed, so its backend runs over stand-ins which record the data sets.',
 'C27': 'Trusts gcc/gfortran instrumentation; each case also runs on two fillings of uninitialised memory.',
 'C28': 'Schedules are those the scheduler produces with a short switch interval and GIL-free kernels; no exhaustive interleaving.',
}
checks = []
for ID in sorted(META):
    checks.append(dict(property=ID, quick_cmd='./check %s quick' % ID, thorough_cmd='./check %s thorough' % ID,
        technique=TECH.get(ID, 'property-based testing against a reference model'), level='exploration',
        level_note='Held on the generated cases (counts in the evidence file), not proved; the oracle is an independent extended-precision model or parser in pbt/. '
                   + NOTE.get(ID, '')))
M = dict(version=1, setup_cmd='./check --setup', checks=checks, not_applicable=[],
         notes='No hooks in /repo. Each check compiles the current /repo sources into a private, content-keyed directory under .build. See DESIGN.md.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f: json.dump(M, f, indent=1); f.write('\n')
