#!/usr/bin/env python3
"""check.py <property> <quick|thorough>: decide one property by symbolic execution of the current /repo sources."""
import sys, os, json, subprocess, time, hashlib, re, resource, tempfile, shutil, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('Z5_REPO', '/repo')
sys.path.insert(0, V)
import specs
LLVM = '/usr/lib/llvm-18/bin'; B = os.environ.get('SX_BUILD', V + '/build'); CORES = os.cpu_count() or 4
DEFS = ['-DJSON_HAS_FILESYSTEM=0', '-DJSON_HAS_EXPERIMENTAL_FILESYSTEM=0']
CODECS = ['-DWITH_BLOSC', '-DWITH_ZLIB', '-DWITH_LIBDEFLATE', '-DWITH_BZIP2', '-DWITH_XZ', '-DWITH_LZ4', '-DWITH_ZSTD']  # configurations of the real build; specs add what a harness needs

def run(cmd, timeout=None, env=None, mem=None, cwd=None):
    def lim():
        if mem: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, preexec_fn=lim, cwd=cwd)
        return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b'').decode('utf8', 'replace'), (e.stderr or b'').decode('utf8', 'replace') + '\ntimeout'

class Broken(Exception): pass
_locks = {}; _glock = threading.Lock()
def once(key, fn):
    with _glock: l = _locks.setdefault(key, [threading.Lock(), None])
    with l[0]:
        if l[1] is None:
            try: l[1] = (True, fn())
            except Exception as e: l[1] = (False, e)
    if not l[1][0]: raise l[1][1]
    return l[1][1]

def newest(d): return max(os.path.getmtime(os.path.join(r, f)) for r, _, fs in os.walk(d) for f in fs)
def ensure_engine():
    os.makedirs(B, exist_ok=True); exe = B + '/symx'
    if os.path.exists(exe) and os.path.getmtime(exe) > newest(V + '/engine'): return exe
    import fcntl
    with open(B + '/.lock', 'w') as lf:
        fcntl.flock(lf, fcntl.LOCK_EX)
        if os.path.exists(exe) and os.path.getmtime(exe) > newest(V + '/engine'): return exe
        rc, o, e = run(['make', '-C', V + '/engine', 'B=' + B], 600)
        if rc: raise Broken('engine build failed: ' + e[-2000:])
    return exe
INC = ['-I' + V + '/rt', '-I' + V + '/shim', '-I' + V + '/harness', '-I' + REPO + '/include']
def bitcode(work, h, defs):
    def go():
        name = h + '-' + hashlib.sha1(' '.join(defs).encode()).hexdigest()[:8]; outs = []
        fl = [LLVM + '/clang++', '-std=c++20', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DSX_ENGINE', '-fvisibility=hidden', '-fno-pic', '-include', V + '/rt/sx_pre.h', '-emit-llvm', '-c', '-w', '-pthread']
        rc, o, e = run(fl + DEFS + defs + INC + [V + '/harness/' + h + '.cpp', '-o', work + '/' + name + '.x.bc'], 300)
        if rc: raise Broken('harness %s does not compile against the current tree:\n%s' % (h, e[:3000]))
        rts = once('rt', lambda: build_rt(work, fl))
        rc, o, e = run([LLVM + '/llvm-link', work + '/' + name + '.x.bc'] + rts + ['-o', work + '/' + name + '.bc'], 120)
        if rc: raise Broken('link failed: ' + e[:2000])
        return work + '/' + name + '.bc'
    return once(('bc', h, tuple(defs)), go)
def build_rt(work, fl):
    r = []
    for f in sorted(os.listdir(V + '/rt')):
        if f.startswith('rt') and f.endswith('.cpp'):
            rc, o, e = run(fl + INC[:1] + [V + '/rt/' + f, '-o', work + '/' + f + '.bc'], 300)
            if rc: raise Broken('runtime does not compile: ' + e[:2000])
            r.append(work + '/' + f + '.bc')
    return r
def native(work, h, defs, san):
    def go():
        name = work + '/' + h + '-' + hashlib.sha1(' '.join(defs).encode()).hexdigest()[:8] + ('.san' if san else '.nat')
        fl = [LLVM + '/clang++', '-std=c++20', '-O0', '-g1', '-w', '-pthread', '-fvisibility=hidden'] if san else [LLVM + '/clang++', '-std=c++20', '-O0', '-w', '-pthread', '-fvisibility=hidden']
        if san: fl += ['-fsanitize=' + san, '-fno-sanitize-recover=undefined', '-D_GLIBCXX_SANITIZE_VECTOR', '-DSX_SAN']
        rc, o, e = run(fl + DEFS + defs + INC + [V + '/harness/' + h + '.cpp', V + '/rt/native.cpp', '-o', name], 300)
        if rc: raise Broken('native build of %s failed: %s' % (h, e[:3000]))
        return name
    return once(('nat', h, tuple(defs), san), go)

def native_threads(work, h, defs, san):
    """replay binary for harnesses with threads: the harness' IR with scheduling points at its atomics, threads as fibers"""
    def go():
        bitcode(work, h, defs); base = work + '/' + h + '-' + hashlib.sha1(' '.join(defs).encode()).hexdigest()[:8]; tag = {None: 'nat', 'thread': 'ts'}.get(san, 'as'); name = base + '.thr.' + tag
        sf = ['-fsanitize=' + san] if san else []
        def do(cmd):
            rc, o, e = run(cmd, 300)
            if rc: raise Broken('native build of %s failed: %s' % (h, e[:3000]))
            return o
        do([B + '/symx', '--instrument', base + '.x.bc', name + '.bc', {None: 'none', 'thread': 'thread'}.get(san, 'address')])
        rt = once(('rtthr',), lambda: (do([LLVM + '/clang++', '-std=c++20', '-O1', '-g1', '-w', '-pthread', '-fvisibility=hidden', '-c'] + INC[:1] + [V + '/rt/rt_threads.cpp', '-o', work + '/rt_threads.o']), work + '/rt_threads.o')[1])
        syms = [l.split()[-1] for l in do([LLVM + '/llvm-nm', '--defined-only', '--extern-only', rt]).splitlines() if l.split()[-2:-1] == ['T'] and 'sxrt' not in l]
        m = name + '.map'; open(m, 'w').write(''.join('%s sxn_%s\n' % (s, s) for s in syms))
        do([LLVM + '/clang++', '-O1', '-w', '-c', name + '.bc', '-o', name + '.h.o'] + sf)
        for a, b in ((name + '.h.o', name + '.h2.o'), (rt, name + '.r2.o')): do([LLVM + '/llvm-objcopy', '--redefine-syms=' + m, a, b])
        do([LLVM + '/clang++', '-std=c++20', '-O0', '-w', '-pthread', '-fvisibility=hidden', '-DSX_FIBERS', '-c', '-o', name + '.n.o'] + (['-DSX_TSAN', '-DSX_NO_NEW'] if san == 'thread' else ['-DSX_ASAN'] if san else []) + INC[:1] + [V + '/rt/native.cpp'])
        do([LLVM + '/clang++', '-pthread', '-no-pie', name + '.h2.o', name + '.r2.o', name + '.n.o', '-o', name] + sf)
        return name
    return once(('thr', h, tuple(defs), san), go)
def native_for(work, job, san): return (native_threads if job.threads else native)(work, job.harness, job.defs, san)
def quiet(f, *a):
    try: f(*a)
    except Exception: pass   # reported by the job that needs it

def write_inputs(path, inputs):
    with open(path, 'w') as f:
        for n, w, v in inputs: f.write('%s %s %s\n' % (n.replace(' ', '_') or '_', w, v))
def replay(exe, inputs_file, params, fill=0xA5):
    env = dict(os.environ, SX_INPUT=inputs_file, SX_FILL=str(fill), ASAN_OPTIONS='exitcode=99:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096', UBSAN_OPTIONS='halt_on_error=1:exitcode=98', TSAN_OPTIONS='exitcode=97')
    return run([exe] + [str(p) for p in params], 120, env)
def confirm(work, job, v, idx):
    """replay a counterexample against the real code; returns (confirmed, text)"""
    f = work + '/cex%s.inputs' % idx; write_inputs(f, v['inputs']); txt = ''
    plans = [('thread', 0xA5), ('address', 0xA5)] if job.threads else [('address,undefined', 0xA5)]
    if v['uninit']: plans += [(None, x) for x in (0xA5, 0x5A, 0xFF, 0x00, 0x01, 0x80)]
    else: plans += [(None, 0xA5), (None, 0)]
    for san, fill in plans:
        exe = native_for(work, job, san); rc, o, e = replay(exe, f, job.params, fill)
        txt += '--- %s fill=%d rc=%d\n%s%s\n' % (san or 'plain', fill, rc, o[-2000:], e[-3000:])
        if rc in (77, 97, 98, 99) or (rc < 0 and rc != -999) or rc in (134, 139, 136): return True, txt
        if rc == -999 or rc == -14:
            if v['kind'] == 'non-termination': return True, txt
    return False, txt

def load_known():
    r = []; p = V + '/KNOWN_FINDINGS.txt'
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding:'):
                d = dict(re.findall(r'(\w+)="([^"]*)"', line)); d['property'] = re.search(r'property=(\w+)', line).group(1); r.append(d)
    return r
def is_known(known, prop, job, v):
    for k in known:
        if k['property'] == prop and k.get('harness', job.harness) == job.harness and k['msg'] == v['msg'] and k.get('in', '') in v['where']: return k
    return None

def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1')); t0 = time.time(); spec = specs.PROPS[prop]
    budget = float(os.environ.get('SX_BUDGET', '780' if tier == 'quick' else '5400'))
    jobs = [j for j in spec['jobs'] if tier == 'thorough' or j.tier == 'q']
    if len(sys.argv) > 3: jobs = [j for j in jobs if re.search(sys.argv[3], j.name())]
    work = tempfile.mkdtemp(prefix='sx-%s-' % prop); rc = 2
    try: rc = check(prop, tier, seed, t0, spec, budget, jobs, work)
    except Broken as b: print('ERROR: %s' % b); rc = 2
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush(); os._exit(rc)

def check(prop, tier, seed, t0, spec, budget, jobs, work):
    known = load_known(); results = []
    if any(j.kind != 'py' for j in jobs):   # engine, bitcode and replay binaries are built side by side
        pre = ThreadPoolExecutor(CORES); fe = pre.submit(ensure_engine); seen = []
        for j in sorted(jobs, key=lambda x: -x.cost):
            k = (j.harness, tuple(j.defs))
            if j.kind == 'py' or k in seen: continue
            seen.append(k); pre.submit(quiet, bitcode, work, j.harness, j.defs)
        thr = set(j.harness for j in jobs if j.threads)
        for h, d in seen:
            if h not in thr: pre.submit(quiet, native, work, h, list(d), None)
        exe = fe.result()
    def one(ij):
        i, job = ij
        if job.kind == 'py': return i, job, run_py(work, job, i, t0, budget, seed, tier)
        bc = bitcode(work, job.harness, job.defs); out = work + '/r%d.json' % i
        left = max(5, budget - (time.time() - t0)); lim = min(left, job.time)
        cmd = [exe, bc, '--out', out, '--time', str(lim), '--seed', str(seed), '--samples', str(job.samples), '--max-viol', '6'] + job.flags
        for p in job.params: cmd += ['--param', str(p)]
        rc, o, e = run(cmd, lim * 1.5 + 60, mem=20 << 30)
        if not os.path.exists(out): return i, job, dict(status=2, inconclusive=['engine ended with %d %s' % (rc, e[-500:])], violations=[], samples=[], covers={}, paths=0, forks=0, instructions=0, queries=0, solver_s=0, functions=[], checks=0, checks_solver=0)
        return i, job, json.load(open(out))
    with ThreadPoolExecutor(CORES) as ex:
        order = sorted(enumerate(jobs), key=lambda x: -x[1].cost)
        for r in ex.map(one, order): results.append(r)
    results.sort(key=lambda x: x[0])
    viols = []; incon = []; knownhits = []; tot = dict(paths=0, forks=0, instructions=0, queries=0, solver_s=0.0, checks=0, checks_solver=0); fns = set(); per = []
    nval = 0; nsample = 0; samples = []; mism = []
    for i, job, r in results:
        for k in tot: tot[k] += r.get(k, 0)
        fns.update(r.get('functions', []))
        per.append(dict(job=job.name(), bounds=job.bounds, status=r['status'], paths=r.get('paths', 0), queries=r.get('queries', 0), solver_s=round(r.get('solver_s', 0), 2), wall_s=round(r.get('wall_s', 0), 2), covers=r.get('covers', {})))
        for m in r.get('inconclusive', []): incon.append('%s: %s' % (job.name(), m))
        if r['status'] == 0:
            for c in job.covers:
                if not r.get('covers', {}).get(c): incon.append('%s: reachability witness "%s" not reached' % (job.name(), c))
        for n, v in enumerate(r['violations']):
            k = is_known(known, prop, job, v)
            if job.kind == 'py': ok, txt = v['confirmed'], v['text']
            else: ok, txt = confirm(work, job, v, '%d_%d' % (i, n))
            if not ok: incon.append('%s: counterexample did not reproduce natively: %s | %s' % (job.name(), v['msg'], txt[-600:])); continue
            if k: knownhits.append((k, v)); continue
            viols.append((job, v, txt))
    # replay sampled paths against the machine code and compare observations
    def rep(args):
        i, job, k, s = args
        f = work + '/s%d_%d.inputs' % (i, k); write_inputs(f, s['inputs']); exe2 = native_for(work, job, None)
        rc, o, e = replay(exe2, f, job.params); obs = re.findall(r'^OBS (\d+)', o, re.M)
        return job, s, rc, obs, o, e
    todo = [(i, job, k, s) for i, job, r in results if job.kind != 'py' and not r['violations'] for k, s in enumerate(r.get('samples', [])) if not s['uninit']]
    with ThreadPoolExecutor(CORES) as ex:
        for job, s, rc, obs, o, e in ex.map(rep, todo):
            nsample += 1
            if rc == 0 and obs == s['obs']: nval += 1
            else: mism.append('%s: path model replayed differently (rc=%d) inputs=%s obs engine=%s native=%s %s %s' % (job.name(), rc, s['inputs'], s['obs'][:8], obs[:8], o[-200:], e[-200:]))
            if len(samples) < 6: samples.append(dict(job=job.name(), inputs=s['inputs'][:40], observed=s['obs'][:16], native_rc=rc))
    for i, job, r in results:
        if job.kind == 'py':
            nval += r.get('validated', 0); nsample += r.get('validated', 0); samples += r.get('samples', [])[:2]
    incon += mism
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 1), violations=len(viols),
        assumptions=spec.get('assumptions', []),
        coverage=dict(states=tot['paths'], transitions=tot['instructions'], traces_validated_against_impl=nval, samples=samples or ['(no path finished)'],
            paths_explored=tot['paths'], forks=tot['forks'], instructions_executed=tot['instructions'], queries_discharged=tot['queries'], solver_seconds=round(tot['solver_s'], 2),
            assertions_checked=tot['checks'], assertions_decided_by_solver=tot['checks_solver'], functions_encoded=sorted(fns), bounds=spec['bounds'], outside_bounds=spec.get('outside', ''), jobs=per,
            inconclusive=incon, known_findings=[k['what'] if 'what' in k else k['msg'] for k, v in knownhits], path_models_replayed=nsample,
            method='states = completed symbolic paths, each standing for all inputs satisfying its path condition; transitions = IR instructions executed symbolically; every branch and assertion decided by the SMT solver'))
    os.makedirs(V + '/evidence', exist_ok=True)
    with open(V + '/evidence/%s.json' % prop, 'w') as f: json.dump(ev, f, indent=1)
    print('%s %s: %d jobs, %d paths, %d queries, %.1fs solver, %d/%d path models replayed, %.0fs' % (prop, tier, len(jobs), tot['paths'], tot['queries'], tot['solver_s'], nval, nsample, time.time() - t0))
    seen = set()
    for k, v in knownhits:
        t = k.get('what', k['msg'])
        if t not in seen: print('KNOWN-FINDING: property=%s %s' % (prop, t)); seen.add(t)
    for m in incon: print('INCONCLUSIVE: ' + m[:1500])
    if viols:
        d = V + '/build/replay'; os.makedirs(d, exist_ok=True); n = 0; seen = set()
        for job, v, txt in viols:
            key = (v['kind'], v['msg'])
            if key in seen: continue
            seen.add(key); p = '%s/%s_%d.json' % (d, prop, n); n += 1
            json.dump(dict(property=prop, harness=job.harness, params=job.params, defs=job.defs, kind=v['kind'], msg=v['msg'], where=v['where'], inputs=v['inputs'], native=txt), open(p, 'w'), indent=1)
            print('  %s: %s: %s\n    at %s\n    inputs %s' % (job.name(), v['kind'], v['msg'], v['where'][:400], ' '.join('%s=%s' % (a, c) for a, b, c in v['inputs'])[:800]))
            print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    # nothing violated; a part that could not be decided is reported as not explored. A check that explored nothing gives no answer.
    if tot['paths'] == 0: return 2
    if incon and os.environ.get('SX_STRICT'): return 2
    return 0

def run_py(work, job, i, t0, budget, seed, tier):
    out = work + '/r%d.json' % i; left = max(5, min(job.time, budget - (time.time() - t0)))
    env = dict(os.environ, Z5_REPO=REPO, VERIF_SEED=str(seed))
    rc, o, e = run(['/opt/veriftools/pyvenv/bin/python', V + '/harness/' + job.harness + '.py', out, str(left)] + [str(p) for p in job.params], left + 60, env, mem=20 << 30)
    if not os.path.exists(out): return dict(status=2, inconclusive=['python checker ended with %d %s' % (rc, (o + e)[-1500:])], violations=[], samples=[], covers={}, paths=0)
    return json.load(open(out))
if __name__ == '__main__': main()
