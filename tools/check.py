#!/usr/bin/env python3
"""check.py PROPERTY [--thorough] [--only RUN] [--keep]
Decides one property: every run described in the '//@ run' lines of harness/PROPERTY*.cpp is compiled from the current /repo tree,
executed symbolically by build/svx (SMT-decided), counterexamples are replayed natively against the same code, sampled passing
executions are replayed too (translation check), and evidence/PROPERTY.json is written."""
import sys, os, re, json, time, shlex, subprocess, glob, shutil, fcntl, concurrent.futures as cf, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SV_REPO', '/repo')
B = os.path.join(V, 'build')
T0 = time.time()
CXX = ['/usr/bin/clang++-18', '-std=c++20', '-fsized-deallocation', '-O1', '-Xclang', '-disable-llvm-passes', '-emit-llvm', '-c', '-g1', '-w', '-D_GLIBCXX_EXTERN_TEMPLATE=0',
       '-isystem', V + '/model/include', '-I' + V + '/model/include', '-I' + V + '/harness', '-I' + REPO + '/include', '-I' + REPO]
PASSES = '-passes=internalize,globaldce,coro-early,cgscc(inline,coro-split,function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg)),coro-cleanup,globaldce'

def sh(cmd, timeout=None, out=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b'').decode(errors='replace')

def ensure_built():
    os.makedirs(B, exist_ok=True)
    with open(B + '/.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        newest = lambda fs: max([os.path.getmtime(f) for f in fs])
        eng = glob.glob(V + '/engine/*')
        if not os.path.exists(B + '/svx') or os.path.getmtime(B + '/svx') < newest(eng):
            rc, o = sh(['bash', V + '/engine/build.sh'])
            if rc: print(o); sys.exit(2)
        mod = glob.glob(V + '/model/*.cpp') + glob.glob(V + '/model/include/**/*', recursive=True)
        if not os.path.exists(B + '/eh.bc') or os.path.getmtime(B + '/eh.bc') < newest(mod) or not os.path.exists(B + '/rt.asan.o') or os.path.getmtime(B + '/rt.asan.o') < newest(mod):
            rc, o = sh(['bash', V + '/tools/models.sh'])
            if rc: print(o); sys.exit(2)

class Run: pass
def parse(prop, tier):
    runs = []; bounds = []; notes = []; assume = []
    for f in sorted(glob.glob(f'{V}/harness/{prop}_*.cpp') + glob.glob(f'{V}/harness/{prop}.cpp')):
        for line in open(f):
            m = re.match(r'//@\s*(\w+)\s+(.*)', line)
            if not m: continue
            if m[1] == 'bounds': bounds.append(os.path.basename(f)[:-4] + ': ' + m[2].strip()); continue
            if m[1] == 'assume': assume.append(os.path.basename(f)[:-4] + ': ' + m[2].strip()); continue
            if m[1] != 'run': continue
            a = shlex.split(m[2]); r = Run(); r.file = f; r.name = os.path.basename(f)[:-4] + '.' + a[0]; r.cflags = []; r.svx = []; r.tier = 'q'; r.bounds = ''; r.link = []; r.extra = []
            for x in a[1:]:
                k, _, v = x.partition('=')
                if k == 'tier': r.tier = v
                elif k == 'cflags': r.cflags = shlex.split(v)
                elif k == 'svx': r.svx = shlex.split(v)
                elif k == 'bounds': r.bounds = v
                elif k == 'extra': r.extra = [REPO + '/' + q for q in v.split(',')]
                elif k == 'novalidate': r.noval = v
                else: raise SystemExit('bad run line: ' + line)
            if tier == 'quick' and r.tier == 't': continue
            if tier == 'thorough' and r.tier == 'qo': continue       # quick-only (a deeper variant replaces it)
            runs.append(r)
    return runs, bounds, assume

def known(prop):
    k = []; f = V + '/known_findings.txt'
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r'known:\s+property=(\S+)\s+run=(\S+)\s+match="([^"]*)"\s+(.*)', line.strip())
            if m and m[1] == prop: k.append((m[2], m[3], m[4]))
    return k

def do_run(r, W, tier, seed, kn, tlimit, nval):
    t0 = time.time(); d = os.path.join(W, r.name); os.makedirs(d, exist_ok=True); P = lambda x: os.path.join(d, x)
    r.err = None; r.viol = None; r.known = []; r.js = None; r.validated = 0; r.mismatch = []; r.samples = []; r.confirm = ''
    hb = P('h.bc'); objs = []
    for i, src in enumerate([r.file] + r.extra):
        o = P(f'h{i}.bc'); rc, out = sh(CXX + [src, '-o', o] + r.cflags, timeout=300)
        if rc: r.err = 'compile: ' + out[-3000:]; return r
        objs.append(o)
    def link(out, eh):
        rc, o = sh(['/usr/bin/llvm-link-18'] + objs + [B + '/sync.bc'] + ([B + '/eh.bc'] if eh else []) + ['-o', out + '.l'])
        if rc: return 'link: ' + o[-2000:]
        rc, o = sh([B + '/svx', '--prep', out + '.p', out + '.l'])
        if rc: return 'prep: ' + o[-2000:]
        rc, o = sh(['/usr/bin/opt-18', PASSES, '-internalize-public-api-list=sv_main,bcmp,memcmp', out + '.p', '-o', out])
        return 'opt: ' + o[-2000:] if rc else None
    e = link(P('e.bc'), True)
    if e: r.err = e; return r
    r.t_compile = time.time() - t0
    ig = []
    for (rn, pat, txt) in kn:
        if rn in (r.name, '*'): ig += ['--ignore', pat]
    left = max(10, tlimit - (time.time() - T0))
    cmd = [B + '/svx', '--time', str(int(left)), '--seed', str(seed), '--out', P('out.json'), '--traces', P('tr'), '--samples', str(nval)] + ig + r.svx + [P('e.bc')]
    rc, out = sh(cmd, timeout=left + 120); open(P('svx.log'), 'w').write(' '.join(cmd) + '\n' + out)
    if rc == -999: r.err = 'engine exceeded its time limit'; return r
    try: r.js = json.load(open(P('out.json')))
    except Exception: r.err = 'engine: ' + out[-1500:]; return r
    r.known = [v for v in r.js['violations'] if v['ignored']]
    vs = [v for v in r.js['violations'] if not v['ignored']]
    if rc == 2 and not vs: r.err = 'engine: ' + (r.js['error'] or out[-1000:]); return r
    r.t_svx = time.time() - t0 - r.t_compile
    def native(kind):
        if not os.path.exists(P('n.bc')):
            e = link(P('n.bc'), False)
            if e: return e
            rc, o = sh([B + '/svx', '--instrument', P('i.bc'), P('n.bc')])
            if rc: return o[-1000:]
        fl = {'asan': ['-fsanitize=address', '-fsanitize-address-use-after-scope'], 'tsan': ['-fsanitize=thread'], 'plain': []}[kind]
        rc, o = sh(['/usr/bin/clang++-18', '-O1', '-g1', '-w'] + fl + [P('i.bc'), B + f'/rt.{kind}.o', '-o', P(kind), '-lpthread'])
        return o[-1500:] if rc else None
    def play(kind, tr): return sh(['/usr/bin/env', 'ASAN_OPTIONS=detect_leaks=0:detect_stack_use_after_return=1', 'TSAN_OPTIONS=exitcode=66:halt_on_error=1', 'setarch', 'x86_64', '-R', P(kind), tr] if kind == 'tsan' else ['/usr/bin/env', 'ASAN_OPTIONS=detect_leaks=0:detect_stack_use_after_return=0', P(kind), tr], timeout=60)
    if vs:
        r.viol = vs[0]; tr = P('tr.viol0'); order = ['tsan', 'asan', 'plain'] if ('race' in vs[0]['kind']) else ['asan', 'plain', 'tsan']
        if os.path.exists(tr):
            for k in order:
                e = native(k)
                if e: r.confirm += f'{k}: build failed {e[-300:]}; '; continue
                rc, o = play(k, tr); tail = '\n'.join(o.strip().split('\n')[-3:])[-400:]; head = next((l for l in o.split('\n') if 'ERROR' in l or 'WARNING' in l or l.startswith('RT')), '')[:200]
                open(P(f'replay.{k}.log'), 'w').write(o)
                if rc not in (0, 94, 93, 96): r.confirm = f'reproduced natively ({k}, exit {rc}): {head or tail}'; r.confirmed = True; break
                r.confirm += f'{k}: exit {rc} {head}; '
            else: r.confirmed = False
        return r
    if nval and not getattr(r, 'noval', None):
        e = native('asan')
        if e: r.err = 'native build: ' + e; return r
        for tr in sorted(glob.glob(P('tr.ok*'))):
            rc, o = play('asan', tr); txt = open(tr).read()
            if rc == 0: r.validated += 1
            else: r.mismatch.append(f'{os.path.basename(tr)}: exit {rc} ' + ' | '.join(o.strip().split('\n')[:4])[:500])
            if not r.samples: r.samples.append({'run': r.name, 'trace': [l[:200] for l in txt.strip().split('\n')[:14]], 'native_replay': 'agrees' if rc == 0 else f'exit {rc}'})
    r.t_val = time.time() - t0 - r.t_compile - r.t_svx
    return r

def main():
    a = sys.argv[1:]; prop = a[0]; tier = 'thorough' if '--thorough' in a or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    only = a[a.index('--only') + 1] if '--only' in a else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ensure_built()
    runs, bounds, assume = parse(prop, tier)
    if only: runs = [r for r in runs if only in r.name]
    if not runs: print('no runs for', prop); sys.exit(2)
    W = os.path.join(B, 'run', f'{prop}.{tier}'); shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    kn = known(prop); tlimit = float(os.environ.get('SV_TLIMIT', '780' if tier == 'quick' else '12000')); nval = 1 if tier == 'quick' else 4
    jobs = int(os.environ.get('SV_JOBS', '8'))
    with cf.ThreadPoolExecutor(jobs) as ex: runs = list(ex.map(lambda r: do_run(r, W, tier, seed, kn, tlimit, nval), runs))
    errs = [r for r in runs if r.err]; viol = [r for r in runs if r.viol]; done = [r for r in runs if r.js and not r.err]
    rc = 0; warn = []
    for r in runs:
        if r.err: print(f'ERROR run={r.name}: {r.err}')
        if r.js:
            miss = [c for c, n in r.js['covers'].items() if not n]; must = [c for c in miss if c.startswith('!')]
            if not r.viol and not r.err:
                if must: r.viol = {'kind': 'required behaviour is unreachable: ' + must[0][1:], 'loc': r.name, 'stack': ''}; r.confirm = 'exhaustive over the bounds; no execution shows the behaviour'; viol.append(r)
                elif miss and len(miss) == len(r.js['covers']): r.err = 'vacuous: no cover point reached'; errs.append(r); print(f'ERROR run={r.name}: {r.err}')
                elif miss: warn.append(f'{r.name}: cover points not reached: {miss}')
        if r.mismatch and not r.viol:
            bad = [m for m in r.mismatch if not re.search(r'exit (94|93|96) ', m)]
            if bad: r.viol = {'kind': 'native execution of a sampled trace failed', 'loc': bad[0], 'stack': ''}; r.confirm = bad[0]; r.confirmed = True; viol.append(r)
            else: r.err = 'encoding mismatch: ' + r.mismatch[0]; errs.append(r); print(f'ERROR run={r.name}: {r.err}')
    for w in warn: print('WARNING', w)
    seen = set()
    for r in runs:
        for v in r.known:
            for (rn, pat, txt) in kn:
                if rn in (r.name, '*') and pat in v['kind'] + ' @' + v['loc'] and (rn, pat) not in seen: seen.add((rn, pat)); print(f'KNOWN-FINDING: property={prop} {txt}')
    os.makedirs(V + '/evidence', exist_ok=True)
    for r in viol:
        rp = f'{V}/build/run/{prop}.{r.name}.replay.txt'; d = os.path.join(W, r.name)
        with open(rp, 'w') as f:
            f.write(f'property {prop} run {r.name}\nharness {r.file} {r.cflags}\nviolation: {r.viol["kind"]} @{r.viol["loc"]}\nstack: {r.viol["stack"]}\nnative replay: {r.confirm}\nreproduce: bash tools/rt.sh {os.path.relpath(r.file, V)} /tmp/replay asan {" ".join(r.cflags)} && /tmp/replay THIS_FILE\n')
            if os.path.exists(d + '/tr.viol0'): f.write(open(d + '/tr.viol0').read())
        print(f'  run {r.name}: {r.viol["kind"]} @{r.viol["loc"]}\n  {r.viol["stack"][:400]}\n  {r.confirm}')
        print(f'VIOLATION property={prop} replay={rp}')
    fn = set(); S = lambda k: sum(int(r.js[k]) for r in done); samples = []
    for r in done: fn.update(r.js['functions']); samples += r.samples
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(time.time() - T0, 2), 'violations': len(viol),
          'coverage': {'states': S('states') if done else 0, 'transitions': S('transitions') if done else 0, 'traces_validated_against_impl': sum(r.validated for r in done), 'samples': samples[:6],
            'paths': S('paths'), 'solver_queries': S('queries'), 'solver_sat': S('sat'), 'solver_unsat': S('unsat'), 'solver_seconds': round(sum(r.js['solver_s'] for r in done), 2), 'instructions_executed_symbolically': S('instructions'),
            'complete_executions_reached': S('terminal_states'),
            'runs': [{'run': r.name, 'defines': ' '.join(r.cflags), 'engine_options': ' '.join(r.svx), 'bounds': r.bounds, 'states': r.js['states'], 'transitions': r.js['transitions'], 'queries': r.js['queries'], 'solver_s': round(r.js['solver_s'], 2), 'wall_s': round(r.js['wall_s'], 2), 'spin_cut': r.js['spin_cut'], 'covers': r.js['covers']} for r in done][:60],
            'bounds': bounds, 'functions_encoded_count': len(fn), 'functions_encoded': sorted(x[:110] for x in fn)[:260], 'errors': [f'{r.name}: {r.err[:300]}' for r in errs], 'warnings': warn},
          'assumptions': assume + ['sequentially consistent interleavings of atomic operations; happens-before computed from the memory orders in the code', 'heap addresses are not reused; compare_exchange_weak and condition variables do not fail spuriously unless a run says so', 'threads, mutexes, condition variables, futexes, clock and exception run time are the models in /verif/model']}
    s = json.dumps(ev, indent=1)
    while len(s) > 60000 and ev['coverage']['functions_encoded']: ev['coverage']['functions_encoded'] = ev['coverage']['functions_encoded'][:len(ev['coverage']['functions_encoded']) // 2]; s = json.dumps(ev, indent=1)
    open(f'{V}/evidence/{prop}.json', 'w').write(s + '\n')
    rc = 1 if viol else 2 if errs else 0
    print(f'{prop} {tier}: {"VIOLATED" if rc == 1 else "ERROR" if rc == 2 else "held"}; {len(runs)} runs, {ev["coverage"]["states"]} states, {ev["coverage"]["transitions"]} transitions, {ev["coverage"]["solver_queries"]} queries, {ev["coverage"]["solver_seconds"]} s solver, {ev["coverage"]["traces_validated_against_impl"]} traces replayed natively, {time.time()-T0:.1f} s')
    if '-t' in a:
        for r in runs: print(f'   {r.name}: compile {getattr(r,"t_compile",0):.1f} svx {getattr(r,"t_svx",0):.1f} val {getattr(r,"t_val",0):.1f}', r.js and (r.js['states'], r.js['transitions'], r.js['queries'], r.js['terminal_states']))
    if rc == 0 and '--keep' not in a: shutil.rmtree(W, ignore_errors=True)
    sys.exit(rc)
main()
