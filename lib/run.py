#!/usr/bin/env python3
"""Driver: builds /repo's current source to bitcode, runs the symbolic executor
on the harnesses of one property, replays what the solver returns against the
natively compiled code, and writes the evidence file."""
import concurrent.futures as cf, fcntl, glob, hashlib, json, os, random, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYMX_REPO', '/repo')
B = os.environ.get('SYMX_BUILD', V + '/build')
sys.path.insert(0, V + '/lib')
import registry
CC, CXX, LINK = 'clang-18', 'clang++-18', 'llvm-link-18'
INC = ['-I' + REPO, '-I' + REPO + '/arch/unix', '-I' + V + '/rt']
DEF = ['-DR_DEBUG_MEMALLOC']
BCF = ['-O1', '-emit-llvm', '-c', '-gline-tables-only', '-fno-vectorize', '-fno-slp-vectorize', '-fno-builtin', '-fno-pic', '-fno-discard-value-names', '-ffp-contract=off', '-w']
CXXBC = ['-std=c++17', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fno-threadsafe-statics', '-U_FORTIFY_SOURCE']
SAN = {'asan': ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address', '-w'], 'msan': ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=memory', '-w']}
NPROC = os.cpu_count() or 4
JOBS = int(os.environ.get('SYMX_JOBS', NPROC))


class Broken(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if r.returncode:
        raise Broken('%s\n%s' % (' '.join(cmd), (r.stderr or b'').decode(errors='replace')[-3000:]))
    return r


def repo_files():
    out = []
    for pat in ('rlib', 'rvm', 'rpa', 'rex', 'rexcc', 'rexgrep', 'rpagrep', 'rexjson', 'rexjsonrpc', 'arch/unix'):
        for root, dirs, files in os.walk(os.path.join(REPO, pat)):
            dirs[:] = [d for d in dirs if d not in ('build', 'doc')]
            for f in files:
                if f.endswith(('.c', '.h', '.cpp', '.rexcc', '.rpa', '.hpp', '.inc')):
                    out.append(os.path.join(root, f))
    return sorted(out)


def src_key():
    h = hashlib.sha256()
    for f in repo_files():
        h.update(f.encode()); h.update(open(f, 'rb').read())
    for f in sorted(glob.glob(V + '/rt/*')):
        h.update(open(f, 'rb').read())
    h.update(open(V + '/lib/groups.py', 'rb').read()); h.update(open(V + '/h/l05_atomic.h', 'rb').read())
    h.update(repr((BCF, CXXBC, SAN)).encode())
    return h.hexdigest()[:16]


def ensure_engine():
    lock = open(B + '/.lock', 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if subprocess.run(['make', '-q', '-C', V + '/symx', 'OUT=' + B], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
            sh(['make', '-j4', '-C', V + '/symx', 'OUT=' + B])
    finally:
        lock.close()


import groups


def compile_one(src, out, mode, extra=()):
    cpp = src.endswith(('.cpp', '.cc'))
    cmd = [CXX if cpp else CC] + (BCF + (CXXBC if cpp else []) if mode == 'bc' else ['-c'] + SAN[mode] + (['-std=c++17'] if cpp else [])) + DEF + list(extra) + INC + [src, '-o', out]
    sh(cmd)


def build_group(g, mode, key):
    """objects of a group of repository sources, cached under the hash of all sources"""
    d = '%s/src/%s/%s' % (B, key, mode)
    os.makedirs(d, exist_ok=True)
    lock = open(d + '/.lock', 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        spec = groups.spec(g, REPO, d, sys.modules[__name__])
        outs, todo = [], []
        for s, extra in spec:
            o = '%s/%s_%s.%s' % (d, g, os.path.relpath(s, '/').replace('/', '_'), 'bc' if mode == 'bc' else 'o')
            outs.append(o)
            if not os.path.exists(o):
                todo.append((s, o, extra))
        def one(t):
            compile_one(t[0], t[1] + '.tmp', mode, t[2]); os.rename(t[1] + '.tmp', t[1])
        with cf.ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(one, todo))
        if mode == 'bc':
            a = '%s/%s.all.bc' % (d, g)
            if todo or not os.path.exists(a):
                sh([LINK] + outs + ['-o', a + '.tmp']); os.rename(a + '.tmp', a)
            return [a]
        return outs
    finally:
        lock.close()


def prune(keep):
    d = B + '/src'
    ks = sorted((x for x in os.listdir(d) if x != keep), key=lambda x: os.path.getmtime(d + '/' + x), reverse=True)
    for x in ks[2:]:
        shutil.rmtree(d + '/' + x, ignore_errors=True)


def unit_id(prop, u):
    return '%s-%s' % (prop, u['name'])


def hsrc(u):
    return '%s/h/%s' % (V, u['src'])


def defs_of(u, tier):
    d = dict(u.get('defs', {})); d.update(u.get(tier, {}).get('defs', {}))
    return ['-D%s=%s' % kv for kv in sorted(d.items())] + groups.extra_flags(u['groups'], REPO)


def build_unit(prop, u, tier, key):
    w = '%s/work/%s' % (B, unit_id(prop, u)); shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    ghdr = ['-I%s/src/%s/gen' % (B, key)]
    libs = [x for g in u['groups'] for x in build_group(g, 'bc', key)] + build_group('minilibc', 'bc', key)
    compile_one(hsrc(u), w + '/h.bc', 'bc', defs_of(u, tier) + ghdr)
    sh([LINK, w + '/h.bc'] + libs + ['-o', w + '/all.bc'])
    return w


def build_native(prop, u, tier, key, mode, w):
    exe = w + '/native-' + mode
    if os.path.exists(exe):
        return exe
    ghdr = ['-I%s/src/%s/gen' % (B, key)]
    libs = [x for g in u['groups'] for x in build_group(g, mode, key)] + build_group('native', mode, key)
    compile_one(hsrc(u), w + '/h.%s.o' % mode, mode, defs_of(u, tier) + ghdr)
    cpp = any('++' in g for g in u['groups']) or u['src'].endswith('.cpp')
    sh([CXX if cpp else CC] + SAN[mode] + [w + '/h.%s.o' % mode] + libs + ['-lm', '-lpthread', '-o', exe])
    return exe


def run_native(exe, replay, timeout=30):
    env = dict(os.environ, SYMX_REPLAY=replay, ASAN_OPTIONS='detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0', MSAN_OPTIONS='exitcode=99')
    try:
        r = subprocess.run([exe], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return r.returncode, r.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return 'timeout', ''


T0 = time.time(); QUICK_TOTAL = 760   # seconds for all units of a quick check


def run_symx(w, u, tier, jobs):
    t = u.get(tier, {})
    mt = t.get('max_time', u.get('max_time', 200 if tier == 'quick' else 3000))
    if tier == 'quick': mt = int(max(5, min(mt, QUICK_TOTAL - (time.time() - T0))))
    cmd = [B + '/symx', '--jobs', str(jobs), '--out', w + '/r', '--max-time', str(mt)]
    ms = t.get('max_steps', u.get('max_steps'))
    if ms: cmd += ['--max-steps', str(ms)]
    if u.get('no_uninit'): cmd += ['--no-uninit']
    cmd.append(w + '/all.bc')
    r = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(w + '/err', 'wb'), start_new_session=True); killed = False
    try: r.wait(timeout=mt + 45)
    except subprocess.TimeoutExpired:   # a single solver call or path outlasts the budget
        killed = True; os.killpg(r.pid, 9); r.wait()
    r.stderr = open(w + '/err', 'rb').read(); parts = []
    for f in glob.glob(w + '/r.*.part'):
        try: parts.append(json.load(open(f)))
        except ValueError: pass
    if not killed and (r.returncode or not parts):
        raise Broken('symx failed (%s): %s' % (r.returncode, r.stderr.decode(errors='replace')[-2000:]))
    m = {k: 0 for k in ('paths', 'forks', 'steps', 'asserts', 'sym_asserts', 'sym_branches', 'infeasible', 'incomplete', 'queries', 'cache', 'sat', 'unsat', 'unknown', 'solver_s')}
    m.update(max_query_s=0, covers=set(), samples=[], functions=set(), errors=[], why=set(), procs=len(parts), paths=0)
    for p in parts:
        for k in ('paths', 'forks', 'steps', 'asserts', 'sym_asserts', 'sym_branches', 'infeasible', 'incomplete', 'queries', 'cache', 'sat', 'unsat', 'unknown', 'solver_s'):
            m[k] += p[k]
        m['max_query_s'] = max(m['max_query_s'], p['max_query_s'])
        m['covers'] |= set(p['covers']); m['samples'] += p['samples']; m['functions'] |= {tuple(x) for x in p['functions']}
        m['errors'] += p['errors']
        if p['why']: m['why'].add(p['why'])
    if killed: m['incomplete'] += 1; m['why'].add('time budget, hard stop')
    seen, e2 = set(), []
    for e in m['errors']:
        k = (e['kind'], e['msg'], e['loc'])
        if k not in seen:
            seen.add(k); e2.append(e)
    m['errors'] = e2
    return m


def write_replay(path, prop, u, tier, inputs, head=()):
    with open(path, 'w') as f:
        f.write('# property=%s unit=%s tier=%s\n' % (prop, u['name'], tier))
        for h in head: f.write('# %s\n' % h.replace('\n', ' '))
        for i in inputs:
            if len(i) > 3 and i[3]: continue
            f.write('%x # %s\n' % (i[-1] if len(i) == 2 else i[2], i[0]))


def known_findings():
    fn = V + '/known_findings.jsonl'
    return [json.loads(l) for l in open(fn) if l.strip() and not l.startswith('#')] if os.path.exists(fn) else []


def match_kf(kfs, prop, u, e):
    st = ' | '.join(e['stack'])
    for k in kfs:
        if k.get('status') == 'fixed' or k.get('property') != prop: continue
        if k.get('unit') and k['unit'] != u['name']: continue
        if k.get('kind') and k['kind'] != e['kind']: continue
        if k.get('msg') and not re.search(k['msg'], e['msg']): continue
        if k.get('stack') and not re.search(k['stack'], st): continue
        return k
    return None


def check(prop, tier, only=None):
    t0 = time.time(); spec = registry.CHECKS[prop]; seed = int(os.environ.get('VERIF_SEED', '1') or 1); rnd = random.Random(seed)
    os.makedirs(B + '/src', exist_ok=True); os.makedirs(V + '/evidence/replays', exist_ok=True)
    for f in glob.glob('%s/evidence/replays/%s-*' % (V, prop)): os.unlink(f)
    ensure_engine(); key = src_key(); os.makedirs('%s/src/%s/gen' % (B, key), exist_ok=True); prune(key)
    kfs = known_findings(); violations, kfound, problems, notes = [], [], [], []
    ev_units, samples_out, traces = [], [], 0
    tot = {k: 0 for k in ('paths', 'forks', 'steps', 'asserts', 'sym_asserts', 'sym_branches', 'queries', 'cache', 'sat', 'unsat', 'unknown', 'incomplete')}; solver_s = 0.0; maxq = 0.0; funcs = {}
    units = [u for u in spec['units'] if (not only or u['name'] == only) and (tier == 'thorough' or not u.get('thorough_only'))]
    for u in units:
        if u.get('engine') == 'cbmc':
            import cbmc
            r = cbmc.run(sys.modules[__name__], prop, u, tier, key)
            violations += r['violations']; problems += r['problems']; ev_units.append(r['evidence']); traces += r.get('traces', 0)
            for k in ('queries', 'paths', 'asserts', 'sym_asserts', 'sym_branches', 'unsat', 'sat'): tot[k] += r['evidence'].get(k, 0)
            solver_s += r['evidence'].get('solver_s', 0)
            samples_out += r.get('samples', []); continue
        ut = time.time()
        w = build_unit(prop, u, tier, key)
        m = run_symx(w, u, tier, JOBS)
        for k in tot: tot[k] += m[k]
        solver_s += m['solver_s']; maxq = max(maxq, m['max_query_s'])
        rf = sorted({f[0] for f in m['functions'] if f[1].startswith(REPO + '/') or ('/src/%s/' % key) in f[1]})
        for f in m['functions']:
            if f[1].startswith(REPO + '/'): funcs.setdefault(os.path.relpath(f[1], REPO), set()).add(f[0])
        missing = [c for c in u.get('covers', []) if c not in m['covers']]
        if not m['errors'] and missing and not m['incomplete']:
            problems.append('%s: witnesses not reached: %s' % (u['name'], ','.join(missing)))
        if m['incomplete']:
            why = '; '.join(sorted(m['why']))
            notes.append('%s: bound not exhausted, %d paths cut (%s)' % (u['name'], m['incomplete'], why))
            if not re.search('budget|stopped', why) : problems.append(notes[-1])
        for n, e in enumerate(m['errors']):
            rp = '%s/evidence/replays/%s-%d.txt' % (V, unit_id(prop, u), n)
            write_replay(rp, prop, u, tier, e['inputs'], ['%s: %s' % (e['kind'], e['msg']), 'at ' + e['loc']] + ['stack ' + s for s in e['stack']] + ['note %s=%s' % tuple(x) for x in e['notes']])
            mode = 'msan' if e['kind'] == 'uninit' else 'asan'
            exe = build_native(prop, u, tier, key, mode, w)
            rc, err = run_native(exe, rp)
            if mode == 'msan' and rc == 0:
                rc, err = run_native(build_native(prop, u, tier, key, 'asan', w), rp)
            ok = rc not in (0, 76, 77)
            k = match_kf(kfs, prop, u, e)
            if not ok:
                problems.append('%s: counterexample does not reproduce natively (rc=%s): %s %s at %s [%s]' % (u['name'], rc, e['kind'], e['msg'], e['loc'], rp))
            elif k: kfound.append((k, e))
            else: violations.append((u['name'], rp, '%s: %s (at %s; native replay: %s)' % (e['kind'], e['msg'], e['loc'], rc)))
        # validation of the encoding: replay solver-chosen inputs of completed paths natively
        ss = m['samples']; rnd.shuffle(ss); ss = ss[:u.get('validate', 12 if tier == 'quick' else 60)]; bad = 0
        if ss and not m['errors']:
            exe = build_native(prop, u, tier, key, 'asan', w)
            def val(iv):
                i, s = iv; rp = '%s/s%d.txt' % (w, i); write_replay(rp, prop, u, tier, s); return s, rp, run_native(exe, rp)
            with cf.ThreadPoolExecutor(NPROC) as ex:
                for s, rp, (rc, err) in ex.map(val, list(enumerate(ss))):
                    traces += 1
                    if rc != 0:
                        bad += 1
                        if rc in (78, 99) or (isinstance(rc, int) and rc < 0) or rc == 'timeout':
                            # a real failure the engine missed is still a concrete violation of the real code
                            rp2 = '%s/evidence/replays/%s-v%d.txt' % (V, unit_id(prop, u), bad); shutil.copy(rp, rp2)
                            txt = '%s: native run of a solver-chosen input fails where the encoding passes (rc=%s) %s' % (u['name'], rc, err[-600:])
                            if rc in (78, 99): violations.append((u['name'], rp2, txt))
                            else: problems.append(txt + ' ' + rp2)
                        else: problems.append('%s: native replay diverges from the encoding rc=%s %s' % (u['name'], rc, err[-300:]))
        if ss: samples_out.append({'unit': u['name'], 'inputs': {a: b for a, b in ss[0][:40]}})
        ev_units.append({'unit': u['name'], 'what': u.get('what', ''), 'bounds': {**u.get('defs', {}), **u.get(tier, {}).get('defs', {})}, 'bound_text': u.get('bounds', ''), 'paths': m['paths'], 'forks': m['forks'], 'instructions': m['steps'], 'symbolic_branches': m['sym_branches'], 'assertions_decided': m['asserts'], 'assertions_symbolic': m['sym_asserts'],
            'queries': m['queries'], 'query_cache_hits': m['cache'], 'sat': m['sat'], 'unsat': m['unsat'], 'unknown': m['unknown'], 'solver_s': round(m['solver_s'], 2), 'max_query_s': m['max_query_s'], 'paths_cut': m['incomplete'], 'why_cut': sorted(m['why']), 'witnesses': sorted(m['covers']), 'functions_encoded': len(rf), 'natively_validated': len(ss) if not m['errors'] else 0, 'wall_s': round(time.time() - ut, 1)})
        shutil.rmtree(w, ignore_errors=True) if not os.environ.get('SYMX_KEEP') else None
        if not os.environ.get('SYMX_QUIET'):
            print('%s %-14s paths=%d asserts=%d(sym %d) queries=%d solver=%.1fs wall=%.1fs%s' % (prop, u['name'], m['paths'], m['asserts'], m['sym_asserts'], m['queries'], m['solver_s'], time.time() - ut, ' CUT=%d' % m['incomplete'] if m['incomplete'] else ''))
    for k in sorted({json.dumps(k[0], sort_keys=True) for k in kfound}):
        print('KNOWN-FINDING: property=%s %s' % (prop, json.loads(k)['what']))
    for n in notes: print('NOTE', n)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'model_checking'),
          'coverage': {'states': tot['paths'], 'transitions': tot['sym_branches'], 'traces_validated_against_impl': traces, 'samples': samples_out[:12] or ['none'],
                       'exhaustive': tot['incomplete'] == 0, 'explanation': 'states = symbolic paths of the real code explored, each standing for every input satisfying its path condition; transitions = branch decisions on symbolic data; each assertion is decided by Z3 for all inputs of its path; traces_validated = solver-chosen inputs of completed paths replayed against the natively compiled code',
                       'assertions_decided': tot['asserts'], 'assertions_symbolic': tot['sym_asserts'], 'queries_discharged': tot['queries'], 'query_cache_hits': tot['cache'], 'sat': tot['sat'], 'unsat': tot['unsat'], 'solver_unknown': tot['unknown'], 'solver_s': round(solver_s, 2), 'max_query_s': maxq, 'instructions_executed': tot['steps'], 'paths_cut': tot['incomplete'],
                       'units': ev_units, 'functions_encoded': {f: sorted(v) for f, v in sorted(funcs.items())}, 'outside_the_bound': spec.get('outside', ''), 'known_findings_seen': sorted({k[0]['id'] for k in kfound}), 'notes': notes, 'problems': problems},
          'assumptions': spec.get('assumptions', []) + registry.COMMON_ASSUMPTIONS, 'wall_s': round(time.time() - t0, 1), 'violations': len(violations)}
    json.dump(ev, open('%s/evidence/%s.json' % (V, prop), 'w'), indent=1)
    for un, rp, txt in violations:
        print('%s: %s' % (un, txt)); print('VIOLATION property=%s replay=%s' % (prop, rp))
    for p in problems: print('PROBLEM', p)
    print('%s %s: %d paths, %d assertions, %d queries, %.1fs solver, %.1fs wall: %s' % (prop, tier, tot['paths'], tot['asserts'], tot['queries'], solver_s, time.time() - t0, 'VIOLATED' if violations else 'inconclusive' if problems else 'holds within bounds'))
    return 1 if violations else 3 if problems else 0


def replay(path):
    m = re.match(r'# property=(\S+) unit=(\S+) tier=(\S+)', open(path).readline())
    prop, un, tier = m.groups(); u = [x for x in registry.CHECKS[prop]['units'] if x['name'] == un][0]
    key = src_key(); os.makedirs('%s/src/%s/gen' % (B, key), exist_ok=True)
    w = '%s/work/replay-%s' % (B, unit_id(prop, u)); shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    for mode in (['msan', 'asan'] if 'uninit:' in open(path).read(2000) else ['asan']):
        rc, err = run_native(build_native(prop, u, tier, key, mode, w), path); print(err); print('native (%s) exit: %s' % (mode, rc))


def setup():
    os.makedirs(B + '/src', exist_ok=True)
    ensure_engine(); sh([B + '/symx', '--selftest'])
    key = src_key(); os.makedirs('%s/src/%s/gen' % (B, key), exist_ok=True)
    for g in groups.ALL + ['minilibc']: build_group(g, 'bc', key)
    for g in groups.ALL + ['native']: build_group(g, 'asan', key)
    print('setup done')


if __name__ == '__main__':
    a = sys.argv[1:]
    try:
        os.makedirs(B, exist_ok=True)
        if a[0] == 'setup': setup(); sys.exit(0)
        if a[0] == 'replay': replay(a[1]); sys.exit(0)
        tier = os.environ.get('VERIF_TIER', 'quick')
        if '--tier' in a: tier = a[a.index('--tier') + 1]
        only = a[a.index('--unit') + 1] if '--unit' in a else None
        sys.exit(check(a[0], tier, only))
    except Broken as e:
        print('BROKEN', e); sys.exit(4)
