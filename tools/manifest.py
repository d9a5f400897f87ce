#!/usr/bin/env python3
"""writes MANIFEST.json from the properties that have harnesses"""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
exec(open(V + '/tools/na.py').read())
checks = []; na = []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)['id']
    if p in NA: na.append({'property': p, 'reason': NA[p]}); continue
    if not glob.glob(f'{V}/harness/{p}_*.cpp'): na.append({'property': p, 'reason': 'no check built yet'}); continue
    checks.append({'property': p, 'quick_cmd': f'python3 tools/check.py {p}', 'thorough_cmd': f'python3 tools/check.py {p} --thorough',
      'technique': 'bounded symbolic execution of the LLVM IR of the real headers (symbolic inputs and schedules, z3 decides every branch, assertion, memory-safety and happens-before condition), counterexamples replayed natively',
      'level': 'model_checking',
      'level_note': NOTE.get(p, '') + ('; ' if NOTE.get(p) else '') + 'Holds for all inputs and interleavings within the bounds stated per run in the evidence file (and in DESIGN.md), nothing is claimed outside them. Trusts clang 18 front end, the svx interpreter (cross-checked by native replay of sampled executions), z3, and the models of threads, mutexes, condition variables, futexes, clock and exceptions in /verif/model. Interleavings are sequentially consistent; weaker memory orders are judged through happens-before.'})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
  'notes': 'No hooks in /repo: harnesses use the public headers; see DESIGN.md.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
