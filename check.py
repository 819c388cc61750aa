#!/usr/bin/env python3-vt
"""Solver-based checks for NUCLEAR-BOMB/option.

  check.py <property-id>            decide one property on /repo's current tree
  check.py --replay <file>          re-run a recorded counterexample natively
  check.py --list                   list harnesses
Environment: VERIF_TIER (quick|thorough), VERIF_SEED, VP_REPO (default /repo), VP_KEEP
"""
import sys, os, re, json, time, subprocess, tempfile, shutil, traceback, multiprocessing, glob
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
REPO = os.environ.get('VP_REPO', '/repo')
INC = os.path.join(REPO, 'include')
HARN = os.path.join(HERE, 'harness')
CLANG = '/usr/bin/clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++'
GXX = 'g++-13' if shutil.which('g++-13') else 'g++'
NPROC = min(8, os.cpu_count() or 8)
UBSAN = ['-fsanitize=bool,signed-integer-overflow,unreachable,return,shift,enum,integer-divide-by-zero', '-fsanitize-trap=all']

# name -> (standard, flags for the IR, flags for the native build, engine options)
ALTMACROS = ['-DOPTION_USE_QUIET_NAN=1', '-DOPTION_USE_PFR=0', '-DOPTION_FORWARD_DECLARE_STD=0']
CONFIGS = {
    'A': ('c++17', ['-O0'] + UBSAN, ['-O0'], {}),
    'B': ('c++20', ['-O0'] + UBSAN, ['-O0'], {}),
    'D': ('c++17', ['-O0', '-DNDEBUG'] + UBSAN, ['-O0', '-DNDEBUG'], {}),
    'C': ('c++17', ['-O2', '-DNDEBUG', '-fno-vectorize', '-fno-slp-vectorize'], ['-O2', '-DNDEBUG'],
          {'check_ub': False, 'optimised': True}),
    'N': ('c++17', ['-O0', '-DOPTION_USE_BUILTIN_TRAITS=0'] + UBSAN, ['-O0', '-DOPTION_USE_BUILTIN_TRAITS=0'], {}),
    'Q': ('c++17', ['-O0'] + UBSAN + ALTMACROS, ['-O0'] + ALTMACROS, {}),
}
CONFIG_TEXT = {
    'A': 'C++17 -O0, debug checks on', 'B': 'C++20 -O0, debug checks on', 'D': 'C++17 -O0 -DNDEBUG (checks become assumptions)',
    'C': 'C++17 -O2 -DNDEBUG', 'N': 'C++17 -O0 with OPTION_USE_BUILTIN_TRAITS=0',
    'Q': 'C++17 -O0 with OPTION_USE_QUIET_NAN=1, OPTION_USE_PFR=0 and OPTION_FORWARD_DECLARE_STD=0',
}
COMMON = ['-I' + INC, '-I' + HARN, '-D_GLIBCXX_ASSERTIONS', '-w']

class Tu:
    def __init__(self, path):
        self.path = path
        self.name = os.path.basename(path)[:-4]
        src = open(path).read()
        def opt(key, default):
            m = re.search(r'^// %s:\s*(.*)$' % key, src, re.M)
            return m.group(1).split() if m else default
        self.quick = opt('configs', ['A', 'D'])
        self.thorough = opt('configs-thorough', None)
        self.flags = opt('flags', [])
        self.gcc = opt('gcc', ['yes'])[0] == 'yes'
        self.bounds = [l.strip() for l in re.findall(r'^// bound:\s*(.*)$', src, re.M)]
    def configs(self, tier):
        if tier == 'quick':
            return self.quick
        if self.thorough is not None:
            return self.quick + [c for c in self.thorough if c not in self.quick]
        return self.quick + [c for c in ('B', 'C') if c not in self.quick]

def run(cmd, timeout=400):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, 'timeout: ' + ' '.join(cmd)

def tier_flags(tier):
    return ['-DVP_DEEP=1'] if tier == 'thorough' else []

def ir_cmd(tu, cfg, out, tier):
    std, fl, _, _ = CONFIGS[cfg]
    return [CLANG, '-std=' + std] + COMMON + fl + tu.flags + tier_flags(tier) + ['-DVP_SYMBOLIC=1', '-S', '-emit-llvm', tu.path, '-o', out]

def native_cmd(tu, cfg, out, tier, kind, tmp):
    std, _, nfl, _ = CONFIGS[cfg]
    base = ['-std=' + std] + COMMON + tu.flags + tier_flags(tier)
    rt = os.path.join(HARN, 'vp_native.cpp')
    san = {'asan': ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-g1'], 'msan': ['-fsanitize=memory', '-g1'],
           'plain': [], 'gcc': []}[kind]
    comp = GXX if kind == 'gcc' else CLANG
    return [comp] + base + nfl + san + ['-fno-omit-frame-pointer', '-rdynamic', tu.path, rt, '-o', out, '-ldl']

# ------------------------------------------------------------------ symbolic workers
MODS = {}
def sym_task(job):
    tuname, cfg, harness, limit, seed = job
    import sym, z3
    z3.set_param('smt.random_seed', seed)
    t = time.time()
    try:
        opts = dict(CONFIGS[cfg][3])
        opts['witness_cap'] = 6
        ex = sym.Executor(MODS[(tuname, cfg)], opts)
        r = ex.run(harness, limit)
        s = ex.stats
        r['violations'] = [v.__dict__ for v in r['violations']]
        r['stats'] = {k: getattr(s, k) for k in ('queries', 'sat', 'unsat', 'unknown', 'solver_s', 'instrs', 'paths', 'assume_cut',
                                                 'asserts', 'assert_queries', 'forks', 'traps', 'folded', 'known')}
        r['functions'] = sorted(s.functions)
    except Exception as e:
        r = dict(entry=harness, ends={}, violations=[], witnesses=[], error='engine: ' + traceback.format_exc()[-600:],
                 wall=time.time() - t, stats=None, functions=[])
    return job, r

# ------------------------------------------------------------------ native replay
def write_cases(path, cases):
    with open(path, 'w') as f:
        for h, inputs in cases:
            f.write('H %s\n' % h)
            for n, w, v in inputs:
                f.write('V %s %d %d\n' % (n, w, v))
            f.write('E\n')

def parse_native(out):
    res = []
    cur = None
    for l in out.split('\n'):
        if l.startswith('CASE '):
            cur = {'end': None, 'obs': [], 'msg': ''}
            res.append(cur)
        elif cur is not None and l.startswith('OBS '):
            p = l.split()
            cur['obs'].append((p[1], int(p[2])))
        elif cur is not None and l.startswith('END ') and cur['end'] is None:
            p = l.split(' ', 2)
            cur['end'] = p[1]; cur['msg'] = p[2] if len(p) > 2 else ''
        elif cur is not None and ('ERROR: ' in l or 'runtime error' in l or 'WARNING: MemorySanitizer' in l):
            cur['msg'] += ' | ' + l.strip()
    return res

def run_native(exe, casefile):
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1:handle_sigtrap=0:handle_sigill=0:alloc_dealloc_mismatch=0'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=0:exitcode=78'
    env['MSAN_OPTIONS'] = 'exitcode=79'
    try:
        p = subprocess.run([exe, casefile], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300, env=env, text=True, errors='replace')
        return parse_native(p.stdout)
    except subprocess.TimeoutExpired:
        return []

def is_fail(c):
    return c['end'] in ('fail', None)

# ------------------------------------------------------------------ main
def load_findings():
    p = os.path.join(HERE, 'known-findings.json')
    return json.load(open(p)) if os.path.exists(p) else []

def tus_for(prop):
    return [Tu(p) for p in sorted(glob.glob(os.path.join(HARN, prop + '*.cpp')))]

def report_dir():
    d = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    return d

def demangle(names):
    try:
        p = subprocess.run(['c++filt'], input='\n'.join(n[1:] if n.startswith('@') else n for n in names), stdout=subprocess.PIPE, text=True, timeout=60)
        return p.stdout.rstrip('\n').split('\n')
    except Exception:
        return names

def check(prop, only=None):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    budget = 700 if tier == 'quick' else 3600
    tus = tus_for(prop)
    if not tus:
        print('no harness for', prop); return 2
    tmp = tempfile.mkdtemp(prefix='vp_%s_' % prop)
    try:
        return check_in(prop, tus, tier, seed, budget, tmp, t0, only)
    finally:
        if not os.environ.get('VP_KEEP'):
            shutil.rmtree(tmp, ignore_errors=True)

def save_replay(prop, n, tu, cfg, kind, harness, inputs, desc):
    p = os.path.join(report_dir(), '%s-%d.json' % (prop, n))
    with open(p, 'w') as f:
        json.dump(dict(property=prop, tu=tu, config=cfg, config_text=CONFIG_TEXT.get(cfg, cfg), build=kind, harness=harness,
                       inputs=[list(x) for x in inputs], violation=desc,
                       how='python3-vt check.py --replay ' + p), f, indent=1)
    return p

def check_in(prop, tus, tier, seed, budget, tmp, t0, only):
    violations = []     # dicts: tu,cfg,build,harness,inputs,desc
    problems = []       # reasons the check gives no answer
    notes = []
    # ---- 1. compile: IR for the solver, native builds for replay
    jobs = []
    for tu in tus:
        for cfg in tu.configs(tier):
            jobs.append(('ir', tu, cfg, os.path.join(tmp, '%s.%s.ll' % (tu.name, cfg))))
        c0 = tu.configs(tier)[0]
        jobs.append(('asan', tu, c0, os.path.join(tmp, '%s.%s.asan' % (tu.name, c0))))
        if tu.gcc:
            jobs.append(('gcc', tu, c0, os.path.join(tmp, '%s.%s.gcc' % (tu.name, c0))))
        if 'C' in tu.configs(tier):
            jobs.append(('plain', tu, 'C', os.path.join(tmp, '%s.C.plain' % tu.name)))
    def build(j):
        kind, tu, cfg, out = j
        cmd = ir_cmd(tu, cfg, out, tier) if kind == 'ir' else native_cmd(tu, cfg, out, tier, kind, tmp)
        rc, o = run(cmd)
        return j, rc, o, cmd
    with ThreadPoolExecutor(NPROC) as ex:
        built = list(ex.map(build, jobs))
    ok_native = {}
    import ir
    failed = [(j, o, cmd) for j, rc, o, cmd in built if rc != 0]
    if failed:
        probe = os.path.join(tmp, 'probe.cpp')
        open(probe, 'w').write('#include <opt/option.hpp>\nint main() { opt::option<int> a{1}; return *a - 1; }\n')
        rc, o = run([CLANG, '-std=c++17', '-I' + INC, '-fsyntax-only', probe])
        if rc != 0:
            print('the library itself does not compile:\n' + o[:2000])
            return 2
        for (kind, tu, cfg, out), o, cmd in failed:
            errs = [l for l in o.split('\n') if 'error' in l][:6]
            if not any('error:' in l for l in errs):        # killed, timed out or crashed: no verdict
                problems.append('%s of %s/%s did not finish: %s' % (kind, tu.name, cfg, o[-300:]))
                continue
            violations.append(dict(tu=tu.name, cfg=cfg, build=kind, harness='(compilation)', inputs=[], confirmed=True,
                                   desc='valid use of the public interface no longer compiles: ' + ' / '.join(errs)))
    for (kind, tu, cfg, out), rc, o, cmd in built:
        if rc == 0:
            if kind == 'ir':
                try:
                    MODS[(tu.name, cfg)] = ir.Module(open(out).read())
                except Exception as e:
                    problems.append('IR of %s/%s: %s' % (tu.name, cfg, e))
            else:
                ok_native[(kind, tu.name)] = out
    t_build = time.time() - t0
    # ---- 2. symbolic execution
    tasks = []
    for (tn, cfg), m in MODS.items():
        for f in m.functions:
            if f.startswith('@vpH_' + prop + '__') and (only is None or re.search(only, f)):
                limit = min(600 if tier == 'thorough' else 240, budget)
                tasks.append((tn, cfg, f[1:], limit, seed))
    results = {}
    if tasks:
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(NPROC, maxtasksperchild=12) as pool:
            it = pool.imap_unordered(sym_task, tasks, chunksize=1)
            try:
                for _ in tasks:
                    job, r = it.next(timeout=max(10, budget - (time.time() - t0)))
                    results[job[:3]] = r
            except multiprocessing.TimeoutError:
                problems.append('time budget of %d s exhausted: %d of %d harness runs unfinished' % (budget, len(tasks) - len(results), len(tasks)))
                pool.terminate()
    elif not failed:
        problems.append('no harness function found')
    # ---- 3. collect
    agg = dict(queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, instrs=0, paths=0, assume_cut=0, asserts=0, assert_queries=0,
               forks=0, traps=0, folded=0, known=0)
    funcs = set()
    per_h = {}
    cand = []
    cfgof = {t.name: t for t in tus}
    for (tn, cfg, h), r in sorted(results.items()):
        st = r.get('stats')
        if st:
            for k in agg:
                agg[k] += st[k]
        funcs |= set(r['functions'])
        good = [w for w in r['witnesses'] if w['asserts'] > 0]
        per_h['%s/%s' % (h, cfg)] = dict(ends=r['ends'], asserts=st and st['asserts'], queries=st and st['queries'], wall_s=round(r['wall'], 2), error=r['error'])
        if r['error']:
            if CONFIGS[cfg][3].get('optimised') and not r['error'].startswith('engine'):
                notes.append('%s in configuration %s not decided: %s' % (h, cfg, r['error']))
            elif not r['violations']:
                problems.append('%s in configuration %s: %s' % (h, cfg, r['error']))
        elif not r['violations'] and not good:
            problems.append('%s in configuration %s is vacuous (no completed path evaluated an assertion)' % (h, cfg))
        for v in r['violations']:
            cand.append((tn, cfg, h, v))
    # ---- 4. translator validation: drive the real code with solver-chosen inputs
    validated = 0
    mism = 0
    cases = {}
    for (tn, cfg, h), r in sorted(results.items()):
        c0 = cfgof[tn].configs(tier)[0]
        for w in r['witnesses']:
            if w['uninit']:
                continue
            if cfg == c0:
                for kind in ('asan', 'gcc'):
                    if (kind, tn) in ok_native:
                        cases.setdefault((kind, tn, cfg), []).append((h, w))
            if cfg == 'C' and ('plain', tn) in ok_native:
                cases.setdefault(('plain', tn, cfg), []).append((h, w))
    def replay_batch(item):
        (kind, tn, cfg), cs = item
        cf = os.path.join(tmp, 'w.%s.%s.%s' % (kind, tn, cfg))
        write_cases(cf, [(h, w['inputs']) for h, w in cs])
        return item, run_native(ok_native[(kind, tn)], cf)
    with ThreadPoolExecutor(NPROC) as ex:
        for ((kind, tn, cfg), cs), res in ex.map(replay_batch, list(cases.items())):
            if len(res) != len(cs):
                problems.append('native replay of %s (%s) gave %d of %d results' % (tn, kind, len(res), len(cs)))
            for (h, w), c in zip(cs, res):
                if is_fail(c):
                    violations.append(dict(tu=tn, cfg=cfg, build=kind, harness=h, inputs=w['inputs'], confirmed=True,
                                           desc='native run (%s) of a solver-chosen input fails: %s' % (kind, c['msg'])))
                    continue
                obs = [(a, b) for a, b in w['obs']]
                okobs = len(obs) == len(c['obs']) and all(a[0] == b[0] and (a[1] is None or a[1] == b[1]) for a, b in zip(obs, c['obs']))
                if c['end'] != w['kind'] or (kind != 'gcc' and not okobs):
                    mism += 1
                    problems.append('translator validation: %s/%s (%s): symbolic run ended %s %s, native %s %s %s; inputs %s' %
                                    (h, cfg, kind, w['kind'], obs, c['end'], c['obs'], c['msg'], w['inputs']))
                else:
                    validated += 1
    # ---- 5. replay counterexamples
    if cand:
        def confirm(item):
            i, (tn, cfg, h, v) = item
            tu = cfgof[tn]
            kinds = ['asan', 'plain'] + (['msan'] if v['kind'] == 'uninit' or v['uninit'] else [])
            last = None
            for c in ([cfg] if cfg in ('A', 'B', 'N') else [cfg, 'A']):
                for kind in kinds:
                    exe = os.path.join(tmp, 'cx.%s.%s.%s' % (tn, c, kind))
                    with locks.setdefault(exe, threading.Lock()):
                        if not os.path.exists(exe):
                            rc, o = run(native_cmd(tu, c, exe, tier, kind, tmp))
                            if rc != 0:
                                continue
                    cf = os.path.join(tmp, 'cx%d.%s.%s' % (i, c, kind))
                    write_cases(cf, [(h, v['inputs'])])
                    r = run_native(exe, cf)
                    if r and is_fail(r[0]):
                        return dict(tu=tn, cfg=c, build=kind, harness=h, inputs=v['inputs'], confirmed=True,
                                    desc='%s: %s [found in configuration %s; native %s build: %s]' % (v['kind'], v['msg'], cfg, kind, r[0]['msg']))
                    last = r[0] if r else None
            return dict(tu=tn, cfg=cfg, build='none', harness=h, inputs=v['inputs'], confirmed=False,
                        desc='%s: %s (in %s; native: %s)' % (v['kind'], v['msg'], '/'.join(demangle(v['where'][-3:])), last))
        import threading
        locks = {}
        seen = {}
        sel = []
        for c in cand:
            k = (c[0], c[2], c[3]['kind'], c[3]['msg'])
            seen[k] = seen.get(k, 0) + 1
            if seen[k] <= 2:
                sel.append(c)
        with ThreadPoolExecutor(NPROC) as ex:
            for r in ex.map(confirm, list(enumerate(sel[:60]))):
                if r['confirmed']:
                    violations.append(r)
                else:
                    problems.append('counterexample did not reproduce natively: %s/%s %s inputs %s' % (r['harness'], r['cfg'], r['desc'], r['inputs']))
    # ---- 6. known findings
    findings = [f for f in load_findings() if f.get('property') == prop and f.get('status') == 'finding']
    real = []
    for v in violations:
        for f in findings:
            if re.search(f['harness'], v['harness']) and re.search(f['match'], v['desc']):
                f['_hit'] = True
                break
        else:
            real.append(v)
    for f in findings:
        print('KNOWN-FINDING: property=%s %s%s' % (prop, f['what'], '' if f.get('_hit') else ' (not observed in this run)'))
    seenk = set()
    out = []
    for v in real:
        k = (v['harness'], v['desc'][:120])
        if k in seenk:
            continue
        seenk.add(k)
        out.append(v)
    d = report_dir()
    for old in glob.glob(os.path.join(d, prop + '-*.json')):
        os.unlink(old)
    for i, v in enumerate(out[:12]):
        p = save_replay(prop, i, v['tu'], v['cfg'], v['build'], v['harness'], v['inputs'], v['desc'])
        print('%s %s [%s]: %s' % (prop, v['harness'], v['cfg'], v['desc'][:700]))
        print('  inputs: ' + ', '.join('%s=%d' % (n, x) for n, w, x in v['inputs'])[:600])
        print('VIOLATION property=%s replay=%s' % (prop, p))
    # ---- 7. evidence
    libf = sorted(f for f in funcs if 'opt' in f and 'vpH_' not in f.split('__')[0])
    dem = [x for x in demangle(libf) if x.startswith(('opt::', 'void opt::', 'bool opt::', 'auto opt::', 'decltype')) or ' opt::' in x]
    fam = {}
    for x in dem:
        y = re.sub(r'<.*?>', '', re.sub(r'\(.*', '', re.sub(r'<[^()]*>', '', x))).strip()
        fam[y] = fam.get(y, 0) + 1
    samples = []
    for (tn, cfg, h), r in sorted(results.items()):
        for w in r['witnesses'][:1]:
            if len(samples) < 5 and w['inputs']:
                samples.append(dict(harness=h, config=cfg, end=w['kind'], inputs={('%d:%s' % (i, n)): v for i, (n, b, v) in enumerate(w['inputs'][:12])},
                                    asserts_on_path=w['asserts'], observed=w['obs'][:6]))
    if not samples:
        samples = [dict(harness=h, end=r['ends']) for (tn, cfg, h), r in list(results.items())[:3]] or ['none']
    bounds = []
    for t in tus:
        bounds += t.bounds
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(out),
              assumptions=[
                  'LLVM IR emitted by clang 18 for x86-64 from /repo/include is the code under test; the executor models memory byte-precisely per object',
                  'libstdc++ hash primitive _Hash_bytes is an uninterpreted function; allocation never fails; single thread',
                  'every branch, assertion and language-level check is decided by z3 over all values of the symbolic inputs of the path',
              ] + ['bound: ' + b for b in bounds],
              coverage=dict(states=agg['paths'], transitions=agg['instrs'], traces_validated_against_impl=validated, samples=samples,
                            harnesses=len({k[2] for k in results}), harness_runs=len(results), configurations={c: CONFIG_TEXT[c] for c in sorted({k[1] for k in results})},
                            paths_completed=sum(v['ends'].get('ok', 0) + v['ends'].get('trap', 0) for v in per_h.values()),
                            paths_cut_by_assumption=agg['assume_cut'], assertions_evaluated=agg['asserts'],
                            assertions_decided_by_solver=agg['assert_queries'], assertions_decided_by_term_simplification=agg['folded'],
                            solver_queries=agg['queries'], solver_sat=agg['sat'], solver_unsat=agg['unsat'], solver_unknown=agg['unknown'],
                            solver_seconds=round(agg['solver_s'], 3), build_seconds=round(t_build, 2),
                            functions_encoded=len(funcs), library_functions_encoded=len(dem),
                            library_function_families=dict(sorted(fam.items(), key=lambda x: -x[1])[:120]),
                            per_harness=per_h, bounds=bounds, not_decided=notes + problems))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s: %d harness runs, %d paths, %d assertions, %d queries (%.1f s solver), %d traces validated natively, %.1f s' %
          (prop, tier, len(results), agg['paths'], agg['asserts'], agg['queries'], agg['solver_s'], validated, time.time() - t0))
    for n in notes[:5]:
        print('NOTE', n)
    if out:
        return 1
    if problems:
        for p in problems[:20]:
            print('INCONCLUSIVE', p[:1500])
        return 2
    return 0

def replay(path):
    r = json.load(open(path))
    tu = Tu(os.path.join(HARN, r['tu'] + '.cpp'))
    tmp = tempfile.mkdtemp(prefix='vp_replay_')
    try:
        exe = os.path.join(tmp, 'x')
        kind = r['build'] if r['build'] in ('asan', 'plain', 'msan', 'gcc') else 'asan'
        rc, o = run(native_cmd(tu, r['config'], exe, os.environ.get('VERIF_TIER', 'quick'), kind, tmp))
        if rc != 0:
            print(o[:4000]); return 1
        cf = os.path.join(tmp, 'c')
        write_cases(cf, [(r['harness'], r['inputs'])])
        subprocess.run([exe, cf])
        c = run_native(exe, cf)
        return 1 if c and is_fail(c[0]) else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == '__main__':
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        sys.exit(replay(a[1]))
    if a and a[0] == '--list':
        for p in sorted(glob.glob(os.path.join(HARN, 'C*.cpp'))):
            print(os.path.basename(p), len(re.findall(r'VP_HARNESS\(', open(p).read())))
        sys.exit(0)
    if a and a[0] == '--selftest':
        # the tools the checks need are present and agree on a trivial query
        import z3
        x = z3.BitVec('x', 8)
        q = z3.Solver(); q.add(x * 3 == 7)
        ok = q.check() == z3.sat
        for tool in (['clang++-18', '--version'], ['g++', '--version']):
            rc, o = run(tool)
            print(o.splitlines()[0] if o else tool)
            ok = ok and rc == 0
        print('z3', z3.get_version_string(), 'ok' if ok else 'FAILED')
        sys.exit(0 if ok else 1)
    sys.exit(check(a[0], a[1] if len(a) > 1 else None))
