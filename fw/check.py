#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]   build the subjects from /repo, search, report.
   check.py --replay FILE                       re-run one saved failing case."""
import sys, os, re, json, time, glob, shutil, subprocess, hashlib, signal
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VF_REPO', '/repo')
sys.path.insert(0, HERE); sys.dont_write_bytecode = True
import configs, gensubj, props
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
JOBS = int(os.environ.get('VF_JOBS') or os.cpu_count() or 8)

def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def cpuflags():
    try: return set(re.search(r'^flags\s*:(.*)$', open('/proc/cpuinfo').read(), re.M).group(1).split())
    except Exception: return set()

class Build:
    def __init__(s, prop, dirname=None):
        s.prop = prop; s.P = props.P[prop]
        s.dir = os.path.join(VERIF, '.build', dirname or '%s-%d' % (prop, os.getpid()))
        shutil.rmtree(s.dir, ignore_errors=True); os.makedirs(s.dir)
        s.notes = []; s.broken = []
    def clean(s): shutil.rmtree(s.dir, ignore_errors=True)
    def runner(s, ex, fuzz=False):
        srcs = ['engine.cpp', 'main.cpp'] + s.P['src']
        outs = []
        def one(f):
            o = os.path.join(s.dir, ('fz_' if fuzz else '') + f.replace('.cpp', '.o'))
            cc = ['clang++', '-O1', '-std=c++17', '-w', '-fsanitize=fuzzer-no-link', '-DFUZZER'] if fuzz else ['g++', '-O1', '-std=c++17', '-w']
            r = sh(cc + ['-c', os.path.join(HERE, f), '-o', o, '-I', HERE])
            if r.returncode: raise SystemExit('runner build failed: %s\n%s' % (f, r.stdout[-3000:]))
            return o
        futs = [ex.submit(one, f) for f in srcs]
        outs = [f.result() for f in futs]
        exe = os.path.join(s.dir, 'fuzzer' if fuzz else 'runner')
        cc = ['clang++', '-fsanitize=fuzzer'] if fuzz else ['g++']
        r = sh(cc + ['-rdynamic', '-o', exe] + outs + ['-ldl', '-lm', '-pthread'])
        if r.returncode: raise SystemExit('runner link failed\n' + r.stdout[-3000:])
        return exe
    def subject(s, ex, cfg, names, apis, tag='', addflags=(), nchunk=1):
        """returns a list of futures and a finisher"""
        c = configs.C[cfg]
        extra = s.P.get('extra', '')
        flags = c['flags'] + list(addflags) + ['-fPIC', '-w', '-I', os.path.join(REPO, 'include'), '-I', HERE] + s.P.get('flags', [])
        srcs = []
        names = list(names)
        parts = [names]
        f = os.path.join(s.dir, 'subj_%s%s.c' % (cfg, tag))
        open(f, 'w').write(gensubj.emit(names, cfg, c['clip'], apis, extra, c.get('sname')))
        srcs.append((f, []))
        if 'call' in apis:
            T = gensubj.table()
            if any(T[n]['call'] for n in names) or s.P.get('needlib'):
                for p in sorted(glob.glob(os.path.join(REPO, 'src', '*.c')) + glob.glob(os.path.join(REPO, 'src', 'clipspace', '*.c'))): srcs.append((p, ['-I', os.path.join(REPO, 'src')]))
        futs = []
        def one(p, add):
            o = os.path.join(s.dir, '%s%s_%s.o' % (cfg, tag, re.sub(r'\W', '_', os.path.relpath(p, '/'))))
            cc, fl = c['cc'], flags
            if cc.endswith('++') and p.startswith(REPO): cc, fl = {'g++': 'gcc', 'clang++': 'clang'}[cc], [x for x in flags if not x.startswith('-std=') and x != '-fpermissive']
            r = sh([cc] + fl + add + ['-c', p, '-o', o])
            return (o, r.returncode, r.stdout)
        for p, add in srcs: futs.append(ex.submit(one, p, add))
        def fin():
            rs = [f.result() for f in futs]
            bad = [r for r in rs if r[1]]
            if bad:
                s.notes.append('configuration %s%s did not compile: %s' % (cfg, tag, bad[0][2][:300].replace('\n', ' | '))); s.broken.append((cfg, bad[0][2])); return None
            so = os.path.join(s.dir, 'subj_%s%s.so' % (cfg, tag))
            r = sh([c['cc'], '-shared'] + (['-fsanitize=address'] if cfg.startswith('asan') else []) + ['-o', so] + [r[0] for r in rs] + ['-Wl,-Bsymbolic', '-lm'] + ([] if tag == '_fz' else ['-Wl,-z,defs']))
            if r.returncode: s.notes.append('configuration %s%s did not link: %s' % (cfg, tag, r.stdout[:300])); s.broken.append((cfg, r.stdout)); return None
            return so
        return fin
    def dict(s):
        """numeric literals of the code under test (and their neighbours) feed the generators"""
        fl, il = set(), set()
        for p in glob.glob(os.path.join(REPO, 'include', 'cglm', '**', '*.h'), recursive=True) + glob.glob(os.path.join(REPO, 'src', '**', '*.c'), recursive=True):
            try: t = open(p, errors='replace').read()
            except OSError: continue
            t = re.sub(r'/\*.*?\*/', ' ', t, flags=re.S); t = re.sub(r'//[^\n]*', ' ', t)
            for m in re.finditer(r'(?<![\w.])(\d+\.\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?|\d+[eE][-+]?\d+)[fFlL]?(?!\w)', t):
                v = float(m.group(1));
                if 0 < v < 1e30: fl.add(v)
            for m in re.finditer(r'(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)[uUlL]*(?![\w.])', t):
                v = int(m.group(1), 0) if not re.match(r'0\d', m.group(1)) else 0
                if 0 <= v < 2**31: il.add(v); 
        fl |= {1.1920929e-07, 1.17549435e-38 * 0 + 1e-6, 3.14159265, 1.57079633, 0.785398163, 6.28318531}
        fl |= {float(i) for i in il if 0 < i <= 1000000}
        p = os.path.join(s.dir, 'dict.txt')
        with open(p, 'w') as f:
            for v in sorted(fl): f.write('f %.17g\n' % v)
            for v in sorted(il): f.write('i %d\n' % v)
        return p

ASAN_ENV = None
def asanenv(b, exe):
    """environment that preloads the AddressSanitizer runtime, or None when it does not start here"""
    global ASAN_ENV
    if ASAN_ENV is None:
        lib = sh(['gcc', '-print-file-name=libasan.so']).stdout.strip()
        e = dict(os.environ, LD_PRELOAD=lib, ASAN_OPTIONS='halt_on_error=0:suppress_equal_pcs=0:detect_leaks=0:handle_segv=0:handle_sigbus=0:handle_sigill=0:handle_sigfpe=0:handle_abort=0:allow_user_segv_handler=1:use_sigaltstack=0:symbolize=0:print_full_thread_history=0:detect_stack_use_after_return=0:log_path=' + os.path.join(b.dir, 'asanlog'))
        r = sh([exe, 'tests', '--prop', b.prop], env=e)
        ASAN_ENV = e if os.path.exists(lib) and r.returncode == 0 and not [f for f in os.listdir(b.dir) if f.startswith('asanlog')] else False
        if not ASAN_ENV: b.notes.append('AddressSanitizer runtime does not start here: ' + r.stdout[-200:])
    return ASAN_ENV or None

def usable(cfgs):
    cpu = cpuflags(); return [c for c in cfgs if all(f in cpu for f in configs.C[c]['cpu'])]

def build_all(b, P, tier):
    cfgs = os.environ['VF_CFGS'].split(',') if os.environ.get('VF_CFGS') else usable(P['cfgs' if tier == 'quick' or 'tcfgs' not in P else 'tcfgs'])
    apis_for = P.get('apis', lambda cfg: ('inl', 'call', 'str') if cfg == 'sse2' else ('inl',))
    with ThreadPoolExecutor(JOBS) as ex:
        t0 = time.time()
        rfut = ThreadPoolExecutor(1).submit(b.runner, ex)
        names = None
        if 'names' in P: names = P['names']()
        if names is None:
            exe = rfut.result(); names = sh([exe, 'list', '--prop', b.prop]).stdout.split()
        if os.environ.get('VF_NAMES'): names = [n for n in os.environ['VF_NAMES'].split(',') if n in gensubj.table()]
        fins = [(c, b.subject(ex, c, names, apis_for(c))) for c in cfgs]
        sos = [(c, f()) for c, f in fins]
        exe = rfut.result()
    if not any(so for c, so in sos) and not (P.get('mustbuild') and b.broken): raise SystemExit('no subject could be built: ' + '; '.join(b.notes))
    if P.get('twin'):
        for c, so in list(sos):
            if so: t = so[:-3] + '_twin.so'; shutil.copy(so, t); sos.append((None, t))
    return exe, [so for c, so in sos if so], [c for c, so in sos if so and c], names

def replay_one(exe, b, prop, fl, sos, dct):
    tp = os.path.join(b.dir, 'tape.txt'); open(tp, 'w').write(' '.join(map(str, fl['tape'])))
    cfg = fl['cfg']; so = [x for x in sos if x.endswith('subj_%s.so' % cfg)] if fl['mode'] == 2 else sos if b.P.get('refs') else [x for x in sos if x.endswith('subj_%s.so' % cfg)] or sos
    return sh([exe, 'replay', '--prop', prop, '--test', fl['test'], '--cfg', cfg, '--api', str(fl['api']), '--mode', str(fl['mode']), '--tape', tp, '--dict', dct] + so, env=asanenv(b, exe) if fl['mode'] == 2 else None)

def known():
    """known_findings.txt: 'known: property=<id> test=<test> match=<regex over the failing case> ...'"""
    r = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) test=(\S+) match=/(.*?)/ (.*)$', l.strip())
            if m: r.append(m.groups())
    return r

def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay': return replay(a[1])
    prop = a[0]; tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    P = props.P[prop]; t0 = time.time()
    if 'main' in P: return P['main'](prop, tier, SEED, t0)
    b = Build(prop)
    try: return run(b, prop, P, tier, t0)
    finally:
        if not os.environ.get('VF_KEEP'): b.clean()

def collect(out):
    fails, stats, samples, notes = [], {}, [], []
    for p in sorted(glob.glob(out + '.*')):
        for l in open(p):
            try: r = json.loads(l)
            except Exception: continue
            if r['t'] == 'fail': fails.append(r)
            elif r['t'] == 'stat':
                s = stats.setdefault(r['test'], dict(ev=0, nt=0, dist=0, cmp=0, skp=0, combos=0))
                for k in ('ev', 'nt', 'dist', 'cmp', 'skp'): s[k] += r[k]
                s['combos'] = r['combos']
            elif r['t'] == 'sample': samples.append(r)
            elif r['t'] == 'nocombo': notes.append('test %s had no build to run on' % r['test'])
        os.remove(p)
    return fails, stats, samples, notes

def run(b, prop, P, tier, t0):
    quick = tier == 'quick'
    exe, sos, cfgs, names = build_all(b, P, tier)
    tb = time.time() - t0
    dct = b.dict()
    only = os.environ.get('VF_ONLY')
    fails, stats, samples = [], {}, []
    budget = int(P.get('budget', 4000000)); rounds = 1; tl = 400
    if os.environ.get('VF_BUDGET'): budget = int(os.environ['VF_BUDGET'])
    modes = P.get('modes', [0])
    if not quick: rounds = 1000000; tl = float(os.environ.get('VF_THOROUGH_S', '600')) - 60
    tstart = time.time(); rd = 0
    while sos and rd < rounds:
        for m in modes:
            out = os.path.join(b.dir, 'out%d' % m)
            env = None; use = [x for x in sos if 'subj_asan' not in x]
            if m == 2: # AddressSanitizer builds, with its runtime preloaded
                use = [x for x in sos if 'subj_asan' in x]; env = asanenv(b, exe)
                if not env or not use: continue
            left = tl - (time.time() - tstart)
            cmd = [exe, 'run', '--prop', prop, '--seed', str(SEED + 1000 * rd), '--budget', str(budget if m != 2 else budget * 2 // 3), '--jobs', str(max(1, JOBS // P.get('threads', 1))), '--out', out, '--dict', dct, '--mode', str(m), '--tlim', str(max(left, 5))]
            if only: cmd += ['--only', only]
            r = sh(cmd + use, env=env)
            if r.returncode: b.notes.append('runner: ' + r.stdout[-300:])
            if r.returncode not in (0,): print(r.stdout[-500:])
            f, st, sa, nt = collect(out); fails += f; samples += sa if rd == 0 else []; b.notes += nt if rd == 0 else []
            for k, v in st.items():
                s = stats.setdefault(k, dict(ev=0, nt=0, dist=0, cmp=0, skp=0, combos=0))
                for q in ('ev', 'nt', 'dist', 'cmp', 'skp'): s[q] += v[q]
                s['combos'] = v['combos']
        rd += 1
        if fails or time.time() - tstart > tl - 5: break
    fuzzinfo = None
    if sos and not quick and not fails and P.get('fuzz', True):
        fuzzinfo, ff = fuzz(b, prop, P, names, dct); fails += ff
    # replay each failure three times in fresh processes before believing it
    viol = []; kn = []
    known_l = [k for k in known() if k[0] == prop]
    for f in fails:
        ok = 0
        for _ in range(3):
            if replay_one(exe, b, prop, f, sos, dct).returncode == 1: ok += 1
        txt = f['cfg'] + ' ' + f['msg'] + ' ' + f['dump']
        hit = [k for k in known_l if k[1] == f['test'] and re.search(k[2], txt)]
        if ok == 0: b.notes.append('failure of %s did not replay: %s' % (f['test'], f['msg'])); continue
        if hit: kn.append(hit[0]); continue
        viol.append(f)
    # a documented build option with which the headers no longer compile (the simulated back ends may lack an intrinsic)
    for cfg, txt in b.broken:
        if P.get('mustbuild') and cfg not in ('neon', 'neon64', 'wasm', 'cxx', 'cxxavx') and (' error: ' in txt or 'undefined reference' in txt):
            m = re.search(r'^.*(?: error: |undefined reference).*$', txt, re.M)
            f = dict(test='compile', cfg=cfg, api=0, mode=0, tape=[], msg='the library does not build in configuration %s (%s): %s' % (cfg, ' '.join(configs.C[cfg]['flags']), m.group(0).strip()), dump=txt[:3000])
            hit = [k for k in known_l if k[1] == 'compile' and re.search(k[2], cfg + ' ' + f['msg'])]
            if hit: kn.append(hit[0])
            else: viol.append(f)
    vfiles = save(prop, viol)
    # evidence
    ev = sum(s['ev'] for s in stats.values()); dn = sum(s['dist'] for s in stats.values())
    vac = [k for k, s in stats.items() if s['ev'] and s['nt'] < 0.02 * s['ev']]
    step = max(1, len(samples) // 12)
    smp = [{'test': s['test'], 'build': s['cfg'], 'api': ['inline', 'linked', 'struct'][s['api']], 'case': s['text'][:600]} for s in samples[::step][:14]]
    cov = dict(evaluations=ev, distinct_nontrivial=dn,
        rule='a case is non-trivial when its inputs are in the domain and at least one output was compared with a defined reference value; cases are counted as distinct by a 2^30-bit hash set over all input bits and the test (collisions only lower the count)',
        samples=smp, tests=len(stats), builds=cfgs, functions=len(names), compared_values=sum(s['cmp'] for s in stats.values()), skipped_values=sum(s['skp'] for s in stats.values()),
        per_test={k: [s['ev'], s['nt'], s['dist']] for k, s in sorted(stats.items())}, low_yield_tests=vac, notes=b.notes, rounds=rd)
    if fuzzinfo: cov['coverage_guided'] = fuzzinfo
    e = dict(property=prop, tier=tier, seed=SEED, level='exploration', coverage=cov, wall_s=round(time.time() - t0, 2), violations=len(viol),
             assumptions=P.get('assume', ['IEEE-754 single precision, round to nearest, default gcc/clang floating point semantics', 'NEON and WASM code paths are executed through a lane-exact intrinsics shim on x86']))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(e, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    for k in dict.fromkeys(kn): print('KNOWN-FINDING: property=%s %s' % (prop, k[3]))
    print('%s %s: %d cases, %d distinct non-trivial, %d tests, builds %s, build %.1fs total %.1fs' % (prop, tier, ev, dn, len(stats), ','.join(cfgs), tb, time.time() - t0))
    b.notes[:] = list(dict.fromkeys(b.notes))
    for n in b.notes[:12]: print('note:', n)
    if vac: print('note: low yield tests:', vac)
    for p, f in vfiles:
        print('  %s [%s api=%s]: %s\n    %s' % (f['test'], f['cfg'], f['api'], f['msg'], f['dump'][:1500]))
        print('VIOLATION property=%s replay=%s' % (prop, p))
    if not viol and not ev: print('no case was evaluated'); return 2
    return 1 if viol else 0

def save(prop, viol):
    vfiles = []
    for f in viol:
        d = os.path.join(VERIF, 'replays'); os.makedirs(d, exist_ok=True)
        h = hashlib.sha1(json.dumps([f['test'], f['cfg'], f['api'], f['tape']]).encode()).hexdigest()[:10]
        p = os.path.join(d, '%s-%s-%s.json' % (prop, re.sub(r'\W', '_', f['test']), h))
        json.dump(dict(property=prop, test=f['test'], cfg=f['cfg'], api=f['api'], mode=f['mode'], tape=f['tape'], message=f['msg'], case=f['dump'], how='python3 fw/check.py --replay ' + p), open(p, 'w'), indent=1)
        vfiles.append((p, f))
    return vfiles

def fuzz(b, prop, P, names, dct, secs=None):
    """coverage-guided libFuzzer campaign over the same tests (thorough tier)"""
    secs = secs or int(os.environ.get('VF_FUZZ_S', '60'))
    try:
        with ThreadPoolExecutor(JOBS) as ex:
            rf = ThreadPoolExecutor(1).submit(b.runner, ex, True)
            fin = []
            for c in usable([x for x in ('clang', 'clangavx') if x in configs.C]):
                fin.append(b.subject(ex, c, names, ('inl', 'str'), tag='_fz', addflags=['-O1', '-fsanitize=fuzzer-no-link']))
            # scalar code path under coverage as well
            sos = [f() for f in fin]; exe = rf.result()
        sos = [x for x in sos if x]
        out = os.path.join(b.dir, 'fuzzout'); ps = []
        for k in range(JOBS):
            cdir = os.path.join(b.dir, 'corpus%d' % k); os.makedirs(cdir)
            env = dict(os.environ, VF_PROP=prop, VF_SO=':'.join(sos), VF_DICT=dct, VF_OUT=out + '.%d' % k)
            if k % 2 and 1 in P.get('modes', [0]): env['VF_GUARD'] = '1'
            ps.append(subprocess.Popen([exe, '-seed=%d' % (SEED * 100 + k + 1), '-max_total_time=%d' % secs, '-max_len=600', '-len_control=50', '-handle_segv=0', '-handle_bus=0', '-handle_ill=0', '-handle_fpe=0', '-handle_abrt=0', cdir], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True))
        runs = 0; cov = 0
        for p in ps:
            err = p.communicate()[1]
            m = re.findall(r'#(\d+)\s', err); runs += int(m[-1]) if m else 0
            m = re.findall(r'cov: (\d+)', err); cov = max(cov, int(m[-1]) if m else 0)
        f, _, _, _ = collect(out)
        return dict(executions=runs, edge_coverage=cov, seconds=secs), f
    except SystemExit as e:
        b.notes.append('fuzz stage unavailable: %s' % e); return None, []

def replay(path):
    r = json.load(open(path)); prop = r['property']; P = props.P[prop]
    if 'replay' in P and 'main' in P: return P['replay'](r)
    b = Build(prop, 'replay-%d' % os.getpid())
    try:
        P2 = dict(P); cfg = r['cfg']; P2['cfgs'] = [cfg] + (['sse2'] if r['test'] == 'compile' else []) + [c for c in P.get('refs', []) if c != cfg]
        exe, sos, cfgs, names = build_all(b, P2, 'quick')
        if r['test'] == 'compile':
            for n in b.notes: print(n)
            return 1 if b.broken else 0
        dct = b.dict(); x = replay_one(exe, b, prop, r, sos, dct); print(x.stdout); return x.returncode
    finally: b.clean()
if __name__ == '__main__': sys.exit(main())
