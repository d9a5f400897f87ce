import sys, os, re, json, random, subprocess, shutil
# usage: mut.py PROP N SEED
prop, N, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
random.seed(f'{prop}{seed}')
p = [json.loads(l) for l in open('/verif/properties.jsonl') if f'"id": "{prop}"' in l][0]
R = f'/tmp/sv_mut/{prop}'; os.makedirs('/tmp/sv_mut', exist_ok=True); shutil.rmtree(R, ignore_errors=True); subprocess.run(['git','clone','-q','/repo',R],check=True)
c = {}
def add(k, f, i, new): c.setdefault(k, []).append((f, i, new))
for f in p['anchors']['files']:
    L = open(f'{R}/{f}').read().split('\n')
    for i, l in enumerate(L):
        s = l.strip()
        if s.startswith('//') or s.startswith('*') or s.startswith('#') or 'static_assert' in s or 'ASSERT' in s: continue
        prev = L[i-1].strip() if i else ''
        if re.match(r'^[\w:>.\-\(\)\*&+]+.*\);$', s) and prev and prev[-1] in ';{}' and not s.startswith(('return','using','auto ','const ','co_','throw')) and not re.match(r'^[\w:<>\*& ]+ [\w]+\(', s) and '= delete' not in s: add('del', f, i, re.match(r'\s*', l)[0] + ';')
        if re.match(r'^[\w:>.\-\*]+ (=|\+=|-=) .*;$', s) and prev and prev[-1] in ';{}' and 'using' not in s: add('delasg', f, i, re.match(r'\s*', l)[0] + ';')
        if re.match(r'^(\+\+|--)[\w.>-]+;$', s): add('delasg', f, i, ';')
        m = re.match(r'^(\s*(?:else )?if \()(.*)(\))$', l)
        if m and 'constexpr' not in l and m[2].count('(') == m[2].count(')'):
            add('neg', f, i, m[1] + '!(' + m[2] + ')' + m[3]); add('tru', f, i, m[1] + '((' + m[2] + ') || true)' + m[3]); add('fls', f, i, m[1] + '((' + m[2] + ') && false)' + m[3])
        if 'memory_order' in l and 'relaxed' not in l: add('mo', f, i, re.sub(r'memory_order_\w+', 'memory_order_relaxed', l))
        for a, b in [('&&', '||'), ('||', '&&'), (' == ', ' != '), (' != ', ' == '), (' < ', ' <= '), (' + 1', ''), (' - 1', ''), ('set_stopped(', 'set_value('), ('return true;', 'return false;'), ('return false;', 'return true;'), ('exchange(', 'load(')]:
            if a in l and not re.search(r'requires|concept|operator|template|constexpr bool|noexcept\(|static_cast<_\w+&&>$', l) and not (a == '&&' and not re.search(r' && ', l)) and a != 'exchange(' and a != 'set_stopped(':
                if a == '&&': add('op', f, i, l.replace(' && ', ' || ', 1))
                else: add('op', f, i, l.replace(a, b, 1))
log = open(f'/tmp/sv_mut/{prop}.{seed}.log', 'w')
keys = list(c); tried = set(); done = 0; n = 0
W = {'del': 3, 'delasg': 2, 'neg': 1, 'tru': 2, 'fls': 2, 'mo': 2, 'op': 2}
pool = [k for k in keys for _ in range(W[k])]
while done < N and n < 4 * N and pool:
    k = random.choice(pool); x = random.choice(c[k]); n += 1
    if x in tried: continue
    tried.add(x); f, i, new = x
    src = open(f'{R}/{f}').read(); L = src.split('\n'); old = L[i]; L[i] = new
    open(f'{R}/{f}', 'w').write('\n'.join(L))
    try:
        o = subprocess.run(['python3', '/verif/tools/check.py', prop], env=dict(os.environ, SV_REPO=R, SV_JOBS='2'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        out = o.stdout.decode(errors='replace'); res = 'KILLED' if 'VIOLATION property' in out else ('STILLBORN' if 'compile' in out and o.returncode else ('SURVIVED' if o.returncode == 0 else f'OTHER{o.returncode}'))
        if res == 'STILLBORN' and 'VIOLATION' not in out: pass
    except subprocess.TimeoutExpired: res = 'TIMEOUT'
    open(f'{R}/{f}', 'w').write(src)
    log.write(f'{res} {k} {f}:{i+1}\n   - {old.strip()}\n   + {new.strip()}\n'); log.flush()
    if res != 'STILLBORN': done += 1
shutil.rmtree(R)
