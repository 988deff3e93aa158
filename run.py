#!/usr/bin/env python3
"""Runs the solver-based check of one property.

  run.py <ID> [--tier quick|thorough] [--entry NAME] [--verbose]
  run.py --replay <file>         re-run a recorded counterexample on the native (ASan) build

The harness /verif/harness/<ID>.cpp and /repo's current headers are compiled to LLVM bitcode, every
entry is executed symbolically by build/xsym (Z3 decides each branch and assertion), and every
reported violation is replayed on a native ASan build of the same harness before it is believed.
Entry lines in a harness:   //! entry <name> [tier=thorough] [time=S] [witness=a,b] [steps=N] [st=MS] : bounds
A line '//! leaks' makes the harness also report unreleased heap memory.
"""
import fcntl, glob, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('XT_REPO', '/repo')
B = os.path.join(V, 'build')
M = os.path.join(V, 'model')
CFL = ['-std=c++17', '-DXTYPES_EXCEPTIONS', '-w', '-I' + M, '-I' + REPO + '/include']
BCFL = ['-include', 'vx_pre.h', '-U_FORTIFY_SOURCE', '-isystem', M + '/include', '-O1', '-gline-tables-only', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-emit-llvm', '-c']
NCFL = ['-g', '-O0', '-fsanitize=address', '-fno-omit-frame-pointer']
JOBS = 8

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)

def ensure_engine():
    os.makedirs(B, exist_ok=True)
    with open(B + '/.lock', 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        r = sh(['bash', V + '/engine/build.sh', B])
        if r.returncode: die('engine build failed:\n' + r.stdout[-3000:])

def die(msg):
    print('CHECK-ERROR: ' + msg); sys.stdout.flush(); sys.exit(2)

def parse(hid):
    src = open('%s/harness/%s.cpp' % (V, hid)).read()
    es, level = [], ''
    for m in re.finditer(r'^//! entry (\S+)([^:\n]*):?(.*)$', src, re.M):
        o = dict(x.split('=', 1) if '=' in x else (x, '1') for x in m.group(2).split())
        es.append(dict(name=m.group(1), opts=o, bounds=m.group(3).strip()))
    assumes = re.findall(r'^//! assume (.*)$', src, re.M)
    return es, assumes, bool(re.search(r'^//! leaks', src, re.M))

def known():
    p = V + '/known_findings.json'
    return json.load(open(p))['findings'] if os.path.exists(p) else []

class Native:
    """Native ASan build of a harness, compiled lazily."""
    def __init__(s, hid, d, defs, leaks): s.hid, s.d, s.defs, s.leaks, s.bin, s.plain = hid, d, defs, leaks, None, None
    def build(s, asan=True):
        out = '%s/%s' % (s.d, 'native' if asan else 'plain')
        r = sh(['clang++'] + CFL + (NCFL if asan else ['-g', '-O0']) + s.defs + ['%s/harness/%s.cpp' % (V, s.hid), M + '/vx_native.cpp', '-o', out, '-rdynamic', '-ldl', '-pthread', '-Wl,--wrap=_Znwm', '-Wl,--wrap=_Znam'])
        if r.returncode: die('native build failed:\n' + r.stdout[:3000])
        if asan: s.bin = out
        else: s.plain = out
    def run(s, entry, infile, obs=False, timeout=40):
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=%d:abort_on_error=0:exitcode=66:allocator_may_return_null=1' % s.leaks, LSAN_OPTIONS='exitcode=66')
        try: r = sh([s.bin, entry, infile] + (['obs'] if obs else []), timeout=timeout, env=env)
        except subprocess.TimeoutExpired: return 'hang', 'no termination in %d s' % timeout
        if 'LeakSanitizer has encountered a fatal error' in r.stdout:
            env['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=66'
            r = sh([s.bin, entry, infile] + (['obs'] if obs else []), timeout=timeout, env=env)
        return r.returncode, r.stdout
    def tsan(s, entry, infile):
        out = s.d + '/tsan'
        if not os.path.exists(out):
            r = sh(['clang++'] + CFL + ['-g', '-O0', '-fsanitize=thread', '-DVX_TSAN', '-fno-omit-frame-pointer', '-D_GLIBCXX_EXTERN_TEMPLATE=0'] + s.defs + ['%s/harness/%s.cpp' % (V, s.hid), M + '/vx_native.cpp', '-o', out, '-rdynamic', '-ldl', '-pthread', '-Wl,--wrap=_Znwm', '-Wl,--wrap=_Znam'])
            if r.returncode: die('native build failed:\n' + r.stdout[:3000])
        try: r = sh(['setarch', '-R', out, entry, infile], timeout=100, env=dict(os.environ, TSAN_OPTIONS='exitcode=66'))
        except subprocess.TimeoutExpired: return 'hang', ''
        return r.returncode, r.stdout
    def valgrind(s, entry, infile):
        if not s.plain: s.build(False)
        try: r = sh(['valgrind', '-q', '--error-exitcode=67', '--leak-check=' + ('full' if s.leaks else 'no'), '--errors-for-leak-kinds=definite,indirect', s.plain, entry, infile], timeout=200)
        except subprocess.TimeoutExpired: return 'hang', ''
        return r.returncode, r.stdout

def write_inputs(path, inputs, head=()):
    with open(path, 'w') as f:
        for n, h in inputs: f.write('%s %s\n' % (n, h or '-'))
    if head:
        with open(path + '.meta', 'w') as f: f.write('\n'.join(head) + '\n')

def confirm(nat, entry, kind, f):
    """Replay a counterexample natively. Returns (confirmed, text)."""
    if kind == 'race':
        rc, out = nat.tsan(entry, f)
        return rc == 66 and 'data race' in out, 'ThreadSanitizer: ' + ' '.join(l for l in out.splitlines() if 'SUMMARY' in l or 'VX-' in l)[:300] if rc else 'ThreadSanitizer finds no race'
    rc, out = nat.run(entry, f)
    last = [l for l in out.splitlines() if 'VX-' in l or 'ERROR' in l or 'SUMMARY' in l][:3]
    if rc in (77, 78): return False, 'replay diverged: ' + ' '.join(last)
    if rc != 0: return True, 'native replay exit %s: %s' % (rc, ' '.join(last))
    if kind in ('uninit', 'memory', 'leak'):
        rc, out = nat.valgrind(entry, f)
        if rc == 67: return True, 'valgrind: ' + ' '.join(out.splitlines()[:2])
    return False, 'native replay clean'

def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay': return replay(a[1])
    hid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick'); only = None; verbose = '--verbose' in a
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    if '--entry' in a: only = a[a.index('--entry') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    budget = 780 if tier == 'quick' else 14000
    ensure_engine()
    entries, assumes, leaks = parse(hid)
    if not leaks:
        for e in entries: e['opts']['noleaks'] = '1'
    entries = [e for e in entries if (tier == 'thorough' or e['opts'].get('tier') != 'thorough') and (not only or e['name'] == only)]
    if not entries: die('no entries')
    d = '%s/%s-%d' % (B, hid, os.getpid()); os.makedirs(d)
    try: rc = check(hid, tier, seed, t0, budget, entries, assumes, d, verbose, only)
    finally: shutil.rmtree(d, ignore_errors=True)
    sys.exit(rc)

def merge(out, npm):
    """Adds up the results of the processes that explored one entry."""
    r = json.load(open(out))
    for f in sorted(glob.glob(out + '.*')):
        q = json.load(open(f))
        for k in ('paths', 'forks', 'instructions', 'asserts', 'asserts_symbolic', 'memory_checks', 'pruned', 'queries', 'z3_queries', 'z3_unsat', 'z3_sat', 'cache_hits', 'model_hits', 'unknown', 'abstract_unsat', 'solver_seconds'): r[k] += q[k]
        for k in ('max_path_steps', 'sym_vars', 'exprs'): r[k] = max(r[k], q[k])
        for k, n in q['incomplete'].items(): r['incomplete'][k] = r['incomplete'].get(k, 0) + n
        for k, x in q['reached'].items():
            if k in r['reached']: r['reached'][k]['paths'] += x['paths']
            else: r['reached'][k] = x
        r['functions'] = sorted(set(r['functions']) | set(q['functions']))
        r['path_models'] += q['path_models']; r['violations'] += q['violations']
    n = len(r['path_models'])
    if n > npm: r['path_models'] = [r['path_models'][i * n // npm] for i in range(npm)]
    seen = {}
    for v in r['violations']: seen.setdefault((v['kind'], v['msg'], v['fn']), []).append(v)
    r['violations'] = [v for vs in seen.values() for v in vs[:4]][:40]
    return r

def check(hid, tier, seed, t0, budget, entries, assumes, d, verbose, only):
    defs = ['-DVX_THOROUGH'] if tier == 'thorough' else []
    hsrc = '%s/harness/%s.cpp' % (V, hid)
    nat = Native(hid, d, defs, 'noleaks' not in entries[0]['opts'])
    with ThreadPoolExecutor(3) as ex:
        f1 = ex.submit(sh, ['clang++'] + CFL + BCFL + defs + [hsrc, '-o', d + '/h.bc'])
        f2 = ex.submit(sh, ['clang++'] + CFL + BCFL + [M + '/rt.cpp', '-o', d + '/rt.bc'])
        f3 = ex.submit(nat.build)
        for f in (f1, f2):
            if f.result().returncode: die('bitcode build failed:\n' + f.result().stdout[:3000])
        r = sh(['llvm-link', d + '/h.bc', d + '/rt.bc', '-o', d + '/all.bc'])
        if r.returncode: die('llvm-link: ' + r.stdout[-2000:])
        f3.result()
    npm = 12 if tier == 'quick' else 200
    tr, tw = os.pipe(); os.write(tw, b't' * JOBS)
    def one(e):
        o = e['opts']; out = '%s/%s.json' % (d, e['name'])
        left = budget - (time.time() - t0) - 30
        os.read(tr, 1)
        try: return explore(e, o, out, left)
        finally: os.write(tw, b't')
    def explore(e, o, out, left):
        tl = min(float(o.get('time', 650 if tier == 'quick' else 3000)), left)
        if tl < 5: return e, None, 'time budget used up'
        cmd = [B + '/xsym', d + '/all.bc', '--entry', e['name'], '--out', out, '--time', str(tl), '--paths', str(npm), '--mem', '3600', '--tokens', str(tr), str(tw), '--stop', d + '/stop', '--grace', '90' if tier == 'quick' else '1800']
        if 'steps' in o: cmd += ['--steps', o['steps']]
        if 'noleaks' in o: cmd += ['--no-leaks']
        cmd += ['--solver-timeout', o.get('st', '30000' if tier == 'quick' else '120000')]
        try: r = sh(cmd, timeout=tl + 200, pass_fds=(tr, tw), env=dict(os.environ, VERIF_SEED=str(seed)))
        except subprocess.TimeoutExpired: return e, None, 'engine timeout'
        if os.environ.get("XSYM_SLOW"): open("/tmp/slow." + e["name"], "w").write(r.stdout)
        if not os.path.exists(out): return e, None, 'engine exit %d: %s' % (r.returncode, r.stdout[-1500:])
        return e, merge(out, npm), ''
    with ThreadPoolExecutor(JOBS) as ex: results = list(ex.map(one, entries))
    kf = [k for k in known() if k['property'] == hid]
    viol, seenkf, problems, unconf = [], [], [], []
    rdir = V + '/evidence/replay/' + hid
    shutil.rmtree(rdir, ignore_errors=True)
    tot = dict.fromkeys('paths forks instructions asserts asserts_symbolic memory_checks queries z3_queries z3_sat z3_unsat unknown'.split(), 0)
    ssec = 0.0; funcs = set(); samples = []; per = []; validated = 0
    for e, r, err in results:
        if r is None: problems.append('%s: %s' % (e['name'], err)); continue
        for k in tot: tot[k] += int(r[k])
        ssec += r['solver_seconds']; funcs |= set(r['functions'])
        inc = dict(r['incomplete']); bad = False; hang_unconf = False
        confirmed_msgs = set()
        for i, v in enumerate(r['violations']):
            if (v['kind'], v['msg']) in confirmed_msgs: continue
            match = [k for k in kf if k['entry'] == e['name'] and k['kind'] == v['kind'] and k['match'] in v['msg'] and k.get('fn', '') in v['fn']]
            os.makedirs(rdir, exist_ok=True); f = '%s/%s-%d.txt' % (rdir, e['name'], i)
            write_inputs(f, v['inputs'], ['property %s' % hid, 'entry %s' % e['name'], 'tier %s' % tier, 'kind %s' % v['kind'], 'what %s' % v['msg'], 'in %s' % v['fn'], 'trace %s' % v['trace'], 'rerun: python3 %s/run.py --replay %s' % (V, f)])
            ok, text = confirm(nat, e['name'], v['kind'], f)
            if not ok:
                unconf.append((e['name'], v, text)); continue
            confirmed_msgs.add((v['kind'], v['msg']))
            bad = True
            if match: seenkf.append(match[0]); continue
            viol.append((e['name'], v, f, text))
        for k, n in inc.items(): problems.append('%s: incomplete: %s (%d)' % (e['name'], k, n))
        wit = [w for w in e['opts'].get('witness', 'end').split(',') if w]
        for w in wit:
            if w not in r['reached'] and not bad: problems.append('%s: witness "%s" never reached (vacuous)' % (e['name'], w))
        # conformance: completed symbolic paths replayed on the native ASan build
        for i, pm in enumerate(r['path_models']):
            if time.time() - t0 > budget: break
            f = '%s/%s-pm%d.txt' % (d, e['name'], i); write_inputs(f, pm['inputs'])
            rc, out = nat.run(e['name'], f, True)
            line = ([l[8:] for l in out.splitlines() if l.startswith('VX-OBS: ')] or [''])[-1] if rc == 0 else ''
            if rc == 0 and line.split() == pm['obs'].split(): validated += 1
            elif rc == 0: problems.append('%s: engine and native observations differ: %s vs %s' % (e['name'], line[:200], pm['obs'][:200]))
            else:
                os.makedirs(rdir, exist_ok=True); f2 = '%s/%s-conf%d.txt' % (rdir, e['name'], i); write_inputs(f2, pm['inputs'], ['property %s' % hid, 'entry %s' % e['name'], 'tier %s' % tier, 'kind native', 'what native run of a symbolic path model fails'])
                if rc in (77, 78): problems.append('%s: path model diverged natively: %s' % (e['name'], out[-300:]))
                else:
                    v = dict(kind='native', msg='native run fails on a path the executor completed: ' + ' '.join(l for l in out.splitlines() if 'VX-' in l or 'ERROR' in l)[:200], fn='', trace='')
                    if not any(x[0] == e['name'] and x[1]['kind'] == 'native' for x in viol): viol.append((e['name'], v, f2, 'exit %s' % rc))
            if len(samples) < 12 and i < 2: samples.append(dict(entry=e['name'], inputs=pm['inputs'][:24], observed=pm['obs'][:200]))
        per.append(dict(entry=e['name'], bounds=e['bounds'], paths=int(r['paths']), forks=int(r['forks']), asserts=int(r['asserts']), asserts_solver=int(r['asserts_symbolic']), memory_checks=int(r['memory_checks']), queries=int(r['queries']), z3_queries=int(r['z3_queries']), solver_seconds=round(r['solver_seconds'], 3), wall_seconds=round(r['wall_seconds'], 3), symbolic_inputs_bytes_or_words=int(r['sym_vars']), incomplete=inc, witnesses={k: x['paths'] for k, x in r['reached'].items()}))
        if verbose: print('%-28s paths %6d asserts %6d queries %6d z3 %5d solver %7.2fs wall %7.2fs %s' % (e['name'], r['paths'], r['asserts'], r['queries'], r['z3_queries'], r['solver_seconds'], r['wall_seconds'], inc or ''))
    for n, v, t in unconf: problems.append('%s: unconfirmed %s "%s" in %s [%s] (%s)' % (n, v['kind'], v['msg'], v['fn'], v['trace'][:300], t))
    if not only:
        ev = dict(property=hid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(viol),
            coverage=dict(states=tot['paths'], transitions=tot['instructions'], traces_validated_against_impl=validated, samples=samples or [dict(entry=p['entry'], bounds=p['bounds']) for p in per],
                meaning='states = symbolic paths explored to completion (each stands for every input satisfying its path condition); transitions = LLVM instructions executed symbolically; traces_validated_against_impl = path models replayed on the native ASan build with identical observations',
                forks=tot['forks'], assertions_checked=tot['asserts'], assertions_decided_by_solver=tot['asserts_symbolic'], memory_accesses_checked=tot['memory_checks'], queries_discharged=tot['queries'], z3_queries=tot['z3_queries'], z3_sat=tot['z3_sat'], z3_unsat=tot['z3_unsat'], solver_unknown=tot['unknown'], solver_seconds=round(ssec, 3),
                functions_encoded=sorted(funcs), bounds=[dict(entry=p['entry'], bounds=p['bounds']) for p in per], entries=per, problems=problems, known_findings=[k['id'] for k in seenkf]),
            assumptions=assumes + ['libstdc++/libc entry points and iostream/codecvt/regex are replaced by the models in /verif/model (value-level equivalent; conformance replays compare with the real library)', 'allocation never fails', 'x86-64 Linux, clang 18 -O1 bitcode of the headers in /repo, XTYPES_EXCEPTIONS build mode', 'nothing is claimed outside the bounds listed per entry'])
        os.makedirs(V + '/evidence', exist_ok=True)
        with open('%s/evidence/%s.json.tmp' % (V, hid), 'w') as f: json.dump(ev, f, indent=1)
        os.replace('%s/evidence/%s.json.tmp' % (V, hid), '%s/evidence/%s.json' % (V, hid))
    for k in {k['id']: k for k in seenkf}.values(): print('KNOWN-FINDING: property=%s %s' % (hid, k['what']))
    for n, v, f, text in viol:
        print('  %s: %s "%s" in %s\n    trace %s\n    %s' % (n, v['kind'], v['msg'], v['fn'], v['trace'][:600], text))
        print('VIOLATION property=%s replay=%s' % (hid, f))
    for p in problems: print('  note: ' + p)
    print('%s %s: %d entries, %d paths, %d assertions (%d by solver), %d queries, solver %.1fs, %d traces validated, wall %.1fs -> %s' % (hid, tier, len(entries), tot['paths'], tot['asserts'], tot['asserts_symbolic'], tot['queries'], ssec, validated, time.time() - t0, 'VIOLATION' if viol else 'INCOMPLETE' if problems else 'HOLDS'))
    return 1 if viol else 2 if problems else 0

def replay(f):
    meta = dict(l.split(' ', 1) for l in open(f + '.meta').read().splitlines() if ' ' in l)
    d = '%s/replay-%d' % (B, os.getpid()); os.makedirs(d)
    try:
        nat = Native(meta['property'], d, ['-DVX_THOROUGH'] if meta['tier'] == 'thorough' else [], parse(meta['property'])[2]); nat.build()
        if meta['kind'] == 'race': rc, out = nat.tsan(meta['entry'], f); print(out); sys.exit(0 if rc == 0 else 1)
        rc, out = nat.run(meta['entry'], f); print(out); print('exit', rc)
        if rc == 0 and meta['kind'] in ('uninit', 'memory', 'leak'): rc, out = nat.valgrind(meta['entry'], f); print(out); print('valgrind exit', rc)
    finally: shutil.rmtree(d, ignore_errors=True)
    sys.exit(0 if rc == 0 else 1)

main()
