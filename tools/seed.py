#!/usr/bin/env python3
"""adds a planted bug: tools/seed.py SPEC.py ; SPEC defines ID PROP FILE EDITS=[(old,new)] NEEDS BREAKS DEMO (C++ text) [FLAGS]
makes seeded/ID/{patch.diff,demo.sh,demo.cpp,meta.json} and tries the demo with and without the change (in a copy of /repo's sources)"""
import sys, os, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = {'FLAGS': ''}
exec(open(sys.argv[1]).read(), s)
d = f"{V}/seeded/{s['ID']}"; os.makedirs(d, exist_ok=True)
W = '/tmp/seedrepo'
if not os.path.exists(W): subprocess.check_call(['git', 'clone', '-q', '/repo', W])
subprocess.check_call('git fetch -q origin && git reset -q --hard origin/HEAD', shell=True, cwd=W)
edits = s['EDITS']
if len(edits[0]) == 2: edits = [(s['FILE'],) + e for e in edits]
for f, a, b in edits:
    p = f'{W}/{f}'; t = open(p).read(); assert t.count(a) == 1, (f, t.count(a), a); open(p, 'w').write(t.replace(a, b))
open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', 'diff'], cwd=W, text=True))
open(d + '/demo.cpp', 'w').write(s['DEMO'].lstrip())
open(d + '/demo.sh', 'w').write(f'''#!/bin/bash
# exit 0: the property holds on this scenario; anything else: it is broken
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++20 -g -O1 -w {s['FLAGS']} -Iinclude "$D/demo.cpp" -o "$T/demo" -pthread || exit 3
timeout 60 "$T/demo"
''')
json.dump({'property': s['PROP'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
for w, want in ((W, 1), ('/repo', 0)):
    r = subprocess.run(['bash', d + '/demo.sh'], cwd=w, capture_output=True, text=True)
    print(w, 'exit', r.returncode, 'OK' if bool(r.returncode) == bool(want) else 'WRONG', (r.stdout + r.stderr)[-600 if bool(r.returncode) != bool(want) else -150:])
