"""Builds the harnesses from /repo's current tree, runs the symbolic executor, replays every counterexample natively."""
import threading, os, sys, json, subprocess, tempfile, shutil, time, re, hashlib
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin/'
BUILD = os.path.join(VERIF, 'build')
SYMX = os.environ.get('SYMX', os.path.join(BUILD, 'symx'))
RT = os.path.join(VERIF, 'rt')
HARN = os.path.join(VERIF, 'harness')
NCPU = int(os.environ.get('VERIF_JOBS', os.cpu_count() or 8))
PASSES = 'function(sroa,early-cse,simplifycfg)'

CXXFLAGS = ['-std=c++17', '-include', 'cstdint', '-DNDEBUG', '-w']
IRFLAGS = ['-O1', '-Xclang', '-disable-llvm-passes', '-g', '-fno-builtin', '-emit-llvm', '-c']
SAN = ['-fsanitize=address,shift-exponent,integer-divide-by-zero,signed-integer-overflow,bounds,null,unreachable,return',
       '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']

class CheckError(Exception):
    pass

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', **kw)
    if r.returncode != 0:
        raise CheckError('command failed (%d): %s\n%s' % (r.returncode, ' '.join(cmd), (r.stderr or r.stdout)[-3000:]))
    return r.stdout

def ensure_engine():
    if not os.path.exists(SYMX):
        run(['bash', os.path.join(VERIF, 'engine', 'build.sh'), BUILD])

def src_path(s):
    return s if os.path.isabs(s) else os.path.join(REPO, s)

class Unit:
    """one harness file with the repository sources it is linked with"""
    def __init__(self, harness, srcs, flags=(), incl=()):
        self.harness, self.srcs, self.flags = harness, list(srcs), list(flags)
    def key(self):
        return (self.harness, tuple(self.srcs), tuple(self.flags))

class Task:
    def __init__(self, unit, entry, params=None, max_time=300, max_steps=3000000, qt=60000, samples=8, opts=()):
        self.unit, self.entry, self.params = unit, entry, dict(params or {})
        self.max_time, self.max_steps, self.qt, self.samples, self.opts = max_time, max_steps, qt, samples, list(opts)
    def name(self):
        return self.entry + ''.join(',%s=%d' % (k, v) for k, v in sorted(self.params.items()))

def incflags():
    return ['-I' + os.path.join(REPO, 'include'), '-I' + RT, '-I' + HARN, '-DREPO_DIR="%s"' % REPO]

def compile_ir(work, src, flags, out):
    cxx = [] if src.endswith('.c') else CXXFLAGS
    comp = 'clang-18' if src.endswith('.c') else 'clang++-18'
    run([comp] + cxx + IRFLAGS + incflags() + list(flags) + [src, '-o', out])

def build_unit(work, u, pool, want_native=True):
    tag = hashlib.sha1(repr(u.key()).encode()).hexdigest()[:8]
    d = os.path.join(work, tag); os.makedirs(d, exist_ok=True)
    h = os.path.join(HARN, u.harness)
    jobs = []; bcs = []; objs = []
    for i, s in enumerate([h] + [src_path(x) for x in u.srcs]):
        o = os.path.join(d, 'm%d.bc' % i); bcs.append(o)
        jobs.append(pool.submit(compile_ir, d, s, u.flags, o))
        if want_native:
            no = os.path.join(d, 'n%d.o' % i); objs.append(no)
            comp = ['gcc'] if s.endswith('.c') else ['g++'] + CXXFLAGS
            jobs.append(pool.submit(run, comp + ['-O1', '-g', '-c'] + SAN + incflags() + u.flags + [s, '-o', no]))
    if want_native:
        no = os.path.join(d, 'rt.o'); objs.append(no)
        jobs.append(pool.submit(run, ['g++', '-O1', '-g', '-c', '-w'] + SAN + incflags() + [os.path.join(RT, 'native.cc'), '-o', no]))
    for i, s in enumerate(['stubs.c', 'stubs_cxx.cc']):
        o = os.path.join(d, 's%d.bc' % i)
        jobs.append(pool.submit(compile_ir, d, os.path.join(RT, s), [], o)); bcs.append(o)
    for j in jobs:
        j.result()
    linked = os.path.join(d, 'all.bc'); opt = os.path.join(d, 'opt.bc')
    nstub = 2
    def finish_ir():
        args = [LLVM + 'llvm-link'] + bcs[:-nstub]
        for b in bcs[-nstub:]:
            args += ['--override=' + b] if False else [b]
        run(args + ['-o', linked])
        run([LLVM + 'opt', '-passes=' + PASSES, linked, '-o', opt])
    def finish_native():
        run(['g++', '-rdynamic'] + SAN + objs + ['-o', os.path.join(d, 'native'), '-ldl'])
    fs = [pool.submit(finish_ir)]
    if want_native:
        fs.append(pool.submit(finish_native))
    for f in fs:
        f.result()
    u.dir, u.bc, u.native = d, opt, os.path.join(d, 'native')
    u.objsrc = [h] + [src_path(x) for x in u.srcs]
    return u

PLAIN = threading.Lock()
def native_plain(u):
    """the unsanitised build, for valgrind"""
    p = os.path.join(u.dir, 'plain')
    with PLAIN:
      if not os.path.exists(p):
        objs = []
        for i, s in enumerate(u.objsrc + [os.path.join(RT, 'native.cc')]):
            o = os.path.join(u.dir, 'p%d.o' % i); objs.append(o)
            comp = ['gcc'] if s.endswith('.c') else ['g++'] + CXXFLAGS
            run(comp + ['-O1', '-g', '-c'] + incflags() + u.flags + [s, '-o', o])
        run(['g++', '-rdynamic'] + objs + ['-o', p, '-ldl'])
    return p

def write_cases(path, cases, params):
    with open(path, 'w') as f:
        for c in cases:
            f.write('case\n')
            for k, v in params.items():
                f.write('param %s %d\n' % (k, v))
            for n, h in c:
                f.write('in \t%s\t%s\n' % (n, h))

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0',
           UBSAN_OPTIONS='print_stacktrace=0:exitcode=98')

def run_native(binary, casefile, entry, ncases, timeout=10, env=None, pre=()):
    """-> list of (status, [lines])"""
    scratch = tempfile.mkdtemp(prefix='symx-run-')
    try:
        r = subprocess.run(list(pre) + [binary, os.path.abspath(casefile), entry, str(timeout)], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, errors='replace', env=env or ENV, timeout=60 + ncases * (timeout + 2), cwd=scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    res = []; cur = []
    for line in r.stdout.splitlines():
        if line.startswith('begin '):
            cur = []
        elif line.startswith('end '):
            _, i, k, v = line.split()
            res.append((k, int(v), cur))
        else:
            cur.append(line)
    if len(res) != ncases:
        raise CheckError('native run of %s ended early: %s %s' % (entry, r.stdout[-500:], r.stderr[-500:]))
    return res

def classify(status):
    k, v, lines = status
    for l in lines:
        if l.startswith('ASSERT '):
            return 'assert', l[7:]
        if l.startswith('DIVERGE '):
            return 'diverge', l[8:]
    if k == 'signal':
        return ('timeout', 'SIGALRM') if v == 14 else ('crash', 'signal %d' % v)
    if v == 0:
        return 'ok', ''
    return 'crash', {99: 'AddressSanitizer', 98: 'UndefinedBehaviorSanitizer', 1: 'sanitizer'}.get(v, 'exit %d' % v)

DEADLINE = 660   # seconds into a quick run after which no symbolic execution continues

NOTHING = dict(paths=0, forks=0, instructions=0, asserts_decided=0, symbolic_accesses=0, queries=0, sat=0, unsat=0, unknown=0, cache_hits=0, eval_hits=0,
               equiv_nodes=0, solver_s=0, max_query_s=0, wall_s=0, violations=[], samples=[], covers={}, covers_declared=[], functions=[])

def run_symx(t, work, seed, deadline):
    left = deadline - time.time()
    if left < 5:
        return dict(NOTHING, incomplete={'not started, the run is out of time': 1})
    out = os.path.join(work, 'r-%s.json' % re.sub(r'[^A-Za-z0-9_=,]', '_', t.name()))
    cmd = [SYMX, t.unit.bc, '--entry', t.entry, '--out', out, '--max-time', str(int(min(t.max_time, left))), '--max-steps', str(t.max_steps),
           '--query-timeout', str(t.qt), '--samples', str(t.samples), '--seed', str(seed), '--src-prefix', REPO + '/'] + t.opts
    for k, v in t.params.items():
        cmd += ['--param', '%s=%d' % (k, v)]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=min(t.max_time, left) + 120)
    except subprocess.TimeoutExpired:
        return dict(NOTHING, incomplete={'time limit': 1})
    if r.returncode == -9:
        return dict(NOTHING, incomplete={'out of memory': 1})
    if r.returncode != 0 or not os.path.exists(out):
        raise CheckError('symbolic execution of %s failed (%d): %s' % (t.name(), r.returncode, r.stderr[-2000:]))
    return json.load(open(out))

def confirm(t, v, work, idx):
    """replay a counterexample against the native build -> (confirmed, text)"""
    cf = os.path.join(work, 'v-%s-%d.case' % (re.sub(r'[^A-Za-z0-9_=,]', '_', t.name()), idx))
    write_cases(cf, [v['inputs']], t.params)
    st = run_native(t.unit.native, cf, t.entry, 1)[0]
    kind, txt = classify(st)
    if kind in ('assert', 'crash', 'timeout'):
        return True, '%s: %s' % (kind, txt), cf
    if v['kind'] in ('memory', 'uninit'):
        pl = native_plain(t.unit)
        vg = ['valgrind', '-q', '--error-exitcode=97', '--trace-children=yes', '--undef-value-errors=' + ('yes' if v['kind'] == 'uninit' else 'no')]
        st2 = run_native(pl, cf, t.entry, 1, timeout=30, pre=vg)[0]
        k2, t2 = classify(st2)
        if k2 in ('assert', 'crash', 'timeout'):
            return True, 'valgrind: %s' % t2, cf
    return False, 'native run: %s %s' % (kind, txt), cf

def validate(t, res, work):
    """replay sampled completed paths natively and compare everything observed"""
    ss = res['samples']
    if not ss:
        return 0, [], []
    cf = os.path.join(work, 's-%s.case' % re.sub(r'[^A-Za-z0-9_=,]', '_', t.name()))
    write_cases(cf, [s['inputs'] for s in ss], t.params)
    sts = run_native(t.unit.native, cf, t.entry, len(ss))
    ok = 0; mism = []; fails = []
    for s, st in zip(ss, sts):
        kind, txt = classify(st)
        if kind in ('assert', 'crash', 'timeout'):
            fails.append((s, '%s: %s' % (kind, txt))); continue
        if kind == 'diverge':
            mism.append((s, txt)); continue
        got = []
        for l in st[2]:
            m = re.match(r'obs (.*) ([0-9a-f]*)$', l)
            if m:
                got.append([m.group(1), m.group(2)])
        if got != s['obs']:
            i = next((i for i, (a, b) in enumerate(zip(got, s['obs'])) if a != b), min(len(got), len(s['obs'])))
            mism.append((s, 'observation %d: native %s, symbolic %s' % (i, got[i:i + 1], s['obs'][i:i + 1]))); continue
        ok += 1
    return ok, mism, fails

def load_known():
    known = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) entry=(\S+) msg="([^"]*)"(?: loc="([^"]*)")?\s*(.*)$', line.strip())
            if m:
                known.append(dict(prop=m.group(1), entry=m.group(2), msg=m.group(3), loc=m.group(4), text=m.group(5)))
    return known

def check(prop, tasks, level='model_checking', assumptions=(), bounds=''):
    if os.environ.get('VERIF_ONLY'): tasks = [t for t in tasks if re.match(os.environ['VERIF_ONLY'], t.name())]   # for development
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    ensure_engine()
    work = tempfile.mkdtemp(prefix='symx-%s-' % prop)
    try:
        return check_in(prop, tasks, level, assumptions, bounds, tier, seed, t0, work)
    except CheckError as e:
        if 'clang_standin' in str(e) and '/src/reflect.cc -o ' in str(e):
            # the stand-in for the clang interface lacks something the plug-in uses now: nothing can be said, which is no reason for an alarm
            why = 'src/reflect.cc cannot be compiled against the stand-in for the clang interface: ' + ' '.join(l for l in str(e).splitlines() if 'error:' in l)[:600]
            print('INCOMPLETE property=%s %s' % (prop, why))
            if not os.environ.get('VERIF_NOEV'):
                os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
                with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
                    json.dump(dict(property=prop, tier=tier, seed=seed, level=level, coverage=dict(states=0, transitions=0, incomplete={why: sorted(t.name() for t in tasks)}, bounds=bounds), assumptions=list(assumptions), wall_s=round(time.time() - t0, 2), violations=0), f, indent=1)
            return 0
        print('ERROR property=%s %s' % (prop, e)); return 2
    finally:
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(work, ignore_errors=True)
        else:
            print('work directory', work)

def demangle(names):
    if not names:
        return {}
    r = subprocess.run(['c++filt'] + names, stdout=subprocess.PIPE, text=True)
    return dict(zip(names, r.stdout.splitlines()))

def check_in(prop, tasks, level, assumptions, bounds, tier, seed, t0, work):
    units = {}
    for t in tasks:
        t.unit = units.setdefault(t.unit.key(), t.unit)
    with ThreadPoolExecutor(NCPU * 2) as pool, ThreadPoolExecutor(8) as up:
        for f in [up.submit(build_unit, work, u, pool) for u in units.values()]:
            f.result()
    tb = time.time() - t0
    results = {}; errors = []
    order = sorted(tasks, key=lambda t: -getattr(t, 'weight', 0))
    with ThreadPoolExecutor(NCPU) as pool:
        deadline = t0 + (DEADLINE if tier == 'quick' else 6 * 3600)
        fs = {pool.submit(run_symx, t, work, seed, deadline): t for t in order}
        for f in as_completed(fs):
            t = fs[f]
            try:
                results[t] = f.result()
                if os.environ.get('VERIF_VERBOSE'):
                    r = results[t]
                    print('  %-50s %6.1fs paths %d forks %d instr %d q %d (%.1fs) viol %d inc %s' % (t.name(), r['wall_s'], r['paths'], r['forks'], r['instructions'], r['queries'], r['solver_s'], len(r['violations']), r['incomplete']), flush=True)
            except CheckError as e:
                errors.append(str(e))
    known = load_known()
    confirmed = []; unconfirmed = []; knownhits = []; mismatches = []; validated = 0; samples = []
    nat_fail = []
    def post(t):
        r = results[t]; out = dict(conf=[], unconf=[], known=[], val=0, mism=[], fails=[])
        done = set()
        for i, v in enumerate(r['violations']):
            key = (v['kind'], v['msg'], v['loc'] if v['kind'] != 'assert' else '')
            if key in done:
                continue
            ok, txt, cf = confirm(t, v, work, i)
            if not ok:
                out['unconf'].append((t, v, txt)); continue
            done.add(key)
            k = next((k for k in known if k['prop'] == prop and k['entry'] == t.entry and k['msg'] == v['msg'] and (not k['loc'] or k['loc'] == v['loc'].replace(REPO + '/', ''))), None)
            out['known' if k else 'conf'].append((t, v, txt, cf, k))
        out['unconf'] = [x for x in out['unconf'] if (x[1]['kind'], x[1]['msg'], x[1]['loc'] if x[1]['kind'] != 'assert' else '') not in done]
        out['val'], out['mism'], out['fails'] = validate(t, r, work)
        return out
    with ThreadPoolExecutor(NCPU) as pool:
        fs = {pool.submit(post, t): t for t in results}
        for f in as_completed(fs):
            t = fs[f]
            try:
                o = f.result()
            except (CheckError, subprocess.TimeoutExpired) as e:
                errors.append('replay of %s: %s' % (t.name(), e)); continue
            confirmed += o['conf']; unconfirmed += o['unconf']; knownhits += o['known']; validated += o['val']
            mismatches += [(t, s, m) for s, m in o['mism']]; nat_fail += [(t, s, m) for s, m in o['fails']]
    incomplete = {}
    for t, r in results.items():
        for k, n in r['incomplete'].items():
            incomplete.setdefault(k, []).append(t.name())
    decl = {}; reach = {}
    for t, r in results.items():
        for c in r['covers_declared']:
            decl.setdefault((t.entry, c), 0)
        for c, n in r['covers'].items():
            reach[(t.entry, c)] = reach.get((t.entry, c), 0) + n
    missing = [k for k in decl if not reach.get(k)]
    # ---- violations
    vdir = os.path.join(VERIF, 'evidence', 'replays'); os.makedirs(vdir, exist_ok=True)
    nviol = 0
    lines = []
    seen = set()
    def emit(t, text, cf_or_inputs, detail):
        nonlocal nviol
        key = (t.entry, text)
        if key in seen:
            return
        seen.add(key)
        path = os.path.join(vdir, '%s-%d.case' % (prop, nviol)); nviol += 1
        with open(path, 'w') as f:
            f.write('# property %s\n# harness %s entry %s srcs %s flags %s\n# %s\n' % (prop, t.unit.harness, t.entry, ' '.join(t.unit.srcs), ' '.join(t.unit.flags), detail.replace('\n', '\n# ')))
            if isinstance(cf_or_inputs, str):
                f.write(open(cf_or_inputs).read())
            else:
                tmp = path + '.tmp'; write_cases(tmp, [cf_or_inputs], t.params); f.write(open(tmp).read()); os.unlink(tmp)
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        lines.append('  %s: %s' % (t.name(), text))
    for t, v, txt, cf, k in confirmed:
        emit(t, '%s: %s at %s' % (v['kind'], v['msg'], v['loc']), cf, '%s: %s at %s\nconfirmed by the native build: %s\nstack:\n%s' % (v['kind'], v['msg'], v['loc'], txt, '\n'.join(v['stack'])))
    for t, s, m in nat_fail:
        if any(c[0] is t for c in confirmed) or any(c[0].entry == t.entry for c in knownhits):
            continue
        emit(t, 'native run of a sampled path fails: ' + m, s['inputs'], 'native run of a sampled path fails: ' + m)
    for t, v, txt, cf, k in knownhits:
        l = 'KNOWN-FINDING: property=%s entry=%s %s -- %s' % (prop, t.entry, v['msg'], k['text'])
        if l not in lines:
            lines.append(l)
    if unconfirmed:
        for t, v, txt in unconfirmed[:5]:
            lines.append('UNCONFIRMED %s: %s: %s at %s (%s)' % (t.name(), v['kind'], v['msg'], v['loc'], txt))
            if not nviol: errors.append('a counterexample did not reproduce natively')
    if not nviol:
        part = set()
        for k, ts in incomplete.items():
            if k == 'stopped after violations' and knownhits:
                continue
            # what ran out of time (or met something not modelled) is not counted as decided: it is reported here and in the evidence
            part.update(n.split(',')[0] for n in ts)
            lines.append('INCOMPLETE property=%s %s in %s%s' % (prop, k, ', '.join(ts[:4]), ' and %d more' % (len(ts) - 4) if len(ts) > 4 else ''))
        for e, c in missing:
            if e in part:
                lines.append('INCOMPLETE property=%s %s: "%s" not reached' % (prop, e, c))
            else:
                errors.append('vacuous: %s never reaches "%s"' % (e, c))
        for t, s, m in mismatches[:5]:
            errors.append('symbolic and native runs of %s differ: %s' % (t.name(), m))
    # ---- evidence
    funcs = {}
    for r in results.values():
        for n, fl, ln, ne in r['functions']:
            funcs[n] = (fl.replace(REPO + '/', ''), ln, funcs.get(n, (0, 0, 0))[2] + ne)
    dm = demangle(sorted(funcs))
    tot = lambda k: sum(r[k] for r in results.values())
    for t, r in results.items():
        for s in r['samples'][:1]:
            samples.append(dict(entry=t.name(), inputs=[[a, b if len(b) < 200 else b[:200] + '...'] for a, b in s['inputs']], observed=s['obs'][:16]))
    ev = dict(property=prop, tier=tier, seed=seed, level=level,
        coverage=dict(
            states=tot('paths') + tot('forks'), transitions=tot('instructions'), traces_validated_against_impl=validated,
            paths_completed=tot('paths'), paths_forked=tot('forks'),
            samples=samples[:12],
            entries=sorted(t.name() for t in results), entry_count=len(results),
            functions_encoded=[dict(name=dm.get(n, n), file=f[0], line=f[1], calls=f[2]) for n, f in sorted(funcs.items(), key=lambda x: (x[1][0], x[1][1]))],
            bounds=bounds,
            assertions_decided=tot('asserts_decided'), symbolic_memory_accesses=tot('symbolic_accesses'),
            queries=dict(total=tot('queries'), sat=tot('sat'), unsat=tot('unsat'), unknown=tot('unknown'), cached=tot('cache_hits'), answered_by_model=tot('eval_hits')),
            equivalence_nodes=tot('equiv_nodes'), solver_s=round(tot('solver_s'), 2), max_query_s=max([r['max_query_s'] for r in results.values()] or [0]),
            reachability_witnesses={'%s: %s' % k: n for k, n in sorted(reach.items())},
            incomplete=incomplete, build_s=round(tb, 1), known_findings=len([l for l in lines if l.startswith('KNOWN')]),
            counterexamples_confirmed_natively=len(confirmed) + len(knownhits)),
        assumptions=list(assumptions), wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1); f.write('\n')
    for l in lines:
        print(l)
    for e in errors:
        print('ERROR property=%s %s' % (prop, e))
    if nviol:
        print('property=%s violated (%d)' % (prop, nviol)); return 1
    if errors:
        return 2
    print('property=%s holds%s: %d entries, %d paths, %d assertions decided, %d queries (%.1fs solver), %d paths replayed natively, %.1fs' %
          (prop, ' on what was explored' if any(l.startswith('INCOMPLETE') for l in lines) else '', len(results), tot('paths'), tot('asserts_decided'), tot('queries'), tot('solver_s'), validated, time.time() - t0))
    return 0
