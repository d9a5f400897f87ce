#!/usr/bin/env python3
# RUNS.md: every run of every harness with its bounds, from the harness files
import glob, re, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {}
for l in open(V + '/properties.jsonl'):
    d = json.loads(l); P[d['id']] = d['title']
out = ['# Runs and bounds (generated by tools/runs.py)', '', 'q = quick and thorough, qo = quick only, t = thorough only.']
for pid in sorted(P):
    out += ['', f'## {pid} {P[pid]}', '']
    for f in sorted(glob.glob(f'{V}/harness/{pid}_*.cpp')):
        h = os.path.basename(f)[:-4]
        for l in open(f):
            m = re.match(r'//@ run (\S+)(.*)', l)
            if m:
                b = re.search(r'bounds="([^"]*)"', m[2]); t = re.search(r'tier=(\w+)', m[2])
                out.append(f'* `{h}.{m[1]}` ({t[1] if t else "q"}): {b[1] if b else ""}')
            m = re.match(r'//@ (bounds|assume) (.*)', l)
            if m: out.append(f'* {m[1]} of `{h}`: {m[2]}')
open(V + '/RUNS.md', 'w').write('\n'.join(out) + '\n')
