#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/catalog.py and lib/props.py."""
import os, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, 'lib'))
import catalog, props
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for c in catalog.C:
        f.write(json.dumps(c['prop']) + '\n')
checks = []; na = []
for c in catalog.C:
    i = c['id']; assert len(c['prop']['title']) <= 80, i
    if c['na'] or i not in props.P:
        na.append(dict(property=i, reason=c['na'] or 'no check built yet')); continue
    checks.append(dict(property=i, quick_cmd='./check %s' % i, thorough_cmd='VERIF_TIER=thorough ./check %s' % i,
        technique='symbolic execution of the compiled C/C++ (LLVM IR) with an SMT solver', level='model_checking',
        level_note='Every path and every value within the bounds: ' + props.P[i]['bounds'] + '. Outside the bounds nothing is claimed. Trusts clang 18 (front end and three scalar passes), the executor in engine/ (sampled paths are replayed on the native sanitised build and must agree), z3, and the libc models in rt/; allocation succeeds.' + (' ' + c['note'] if c['note'] else '')))
json.dump(dict(version=1, setup_cmd='bash engine/build.sh', checks=checks, not_applicable=na,
    notes='No hooks in /repo. ./replay FILE runs a reported counterexample against the native build of the current tree.'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
