"""Runs a check: builds the tree, starts the workers, collects, writes evidence."""
import sys, os, json, time, subprocess, tempfile, shutil, hashlib, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)
PY = sys.executable
import build
IDS = ['C%02d' % i for i in range(1, 31)]

def env_for(variant):
    env = dict(os.environ)
    env.update(PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               MPLBACKEND='agg', PYTHONDONTWRITEBYTECODE='1', IGAKIT_VERIF_VARIANT=variant)
    env.pop('PYTHONPATH', None)
    if variant == 'asan':
        lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], stdout=subprocess.PIPE, text=True).stdout.strip()
        env['LD_PRELOAD'] = lib
        env['ASAN_OPTIONS'] = ('detect_leaks=0:malloc_fill_byte=255:max_malloc_fill_size=268435456:'
                               'allocator_may_return_null=1:handle_segv=1:exitcode=77:abort_on_error=0')
        env['PYTHONMALLOC'] = 'malloc'
    else:
        env['MALLOC_PERTURB_'] = '1'
    return env

def meta(ID):
    """Counts of a property without importing numpy: ask a worker-like process."""
    sys.path.append('/opt/venv/lib/python3.12/site-packages')
    from props import META
    return META[ID]

def known():
    """Recorded findings: lines 'KNOWN-FINDING: property=<id> key=<key> <text>'."""
    out = {}
    try:
        for l in open(os.path.join(VERIF, 'known_findings.txt')):
            if l.startswith('KNOWN-FINDING: property='):
                ID = l.split('property=')[1].split()[0]
                out.setdefault(ID, []).append(l.strip())
    except OSError: pass
    return out

def popen(args, env, log):
    return subprocess.Popen([PY, '-S', '-B', os.path.join(HERE, 'worker.py')] + args,
                            env=env, stdin=subprocess.DEVNULL, stdout=log, stderr=log,
                            cwd=os.path.dirname(log.name))

def one(ID, case, env, pkg, work):
    f = os.path.join(work, 'case-one.json')
    with open(f, 'w') as fh: json.dump(case, fh)
    r = subprocess.run([PY, '-S', '-B', os.path.join(HERE, 'worker.py'), 'one', ID, f, pkg],
                       env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True, cwd=work, errors='replace')
    if r.returncode == 0 and r.stdout.startswith('OK'): return None
    if r.returncode == 1 and 'FAIL ' in r.stdout: return r.stdout.split('FAIL ', 1)[1].strip()
    if r.returncode == 70: raise RuntimeError(r.stderr[-3000:])
    why = ('signal %s' % signal.Signals(-r.returncode).name) if r.returncode < 0 else 'exit status %d' % r.returncode
    if r.returncode == -signal.SIGPROF: why = 'no result within the CPU time limit'
    return 'the process ended while running this case (%s) %s' % (why, asan_summary(r.stderr))

def asan_summary(text):
    for l in text.split('\n'):
        if 'ERROR: AddressSanitizer' in l or 'Fortran runtime error' in l: return l.strip()[:300]
    return ''

def run(ID, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    m = meta(ID)
    n = m['quick'] if tier == 'quick' else m['thorough']
    scale = float(os.environ.get('IGAKIT_VERIF_SCALE', '1'))
    W = m.get('workers', 8)
    per = max(1, int(n * scale) // W)
    tl = 420.0 if tier == 'quick' else 4 * 3600.0
    pkg = build.ensure(m.get('variant', 'plain'))
    env = env_for(m.get('variant', 'plain'))
    tb = time.time() - t0
    work = tempfile.mkdtemp(prefix='igakit-verif-')
    try:
        return _run(ID, tier, seed, m, W, per, tl, pkg, env, work, t0, tb)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def _run(ID, tier, seed, m, W, per, tl, pkg, env, work, t0, tb):
    scale = float(os.environ.get('IGAKIT_VERIF_SCALE', '1'))
    procs = {}
    for s in range(W):
        log = open(os.path.join(work, 'log%d' % s), 'w')
        procs[s] = popen(['run', ID, str(per), str(seed), str(s), work, pkg, str(tl)], env, log)
    results, fail = {}, None
    def log_of(s):
        try: return open(os.path.join(work, 'log%d' % s), errors='replace').read()
        except OSError: return ''
    def kill_all():
        for p in procs.values():
            if p.poll() is None: p.kill()
        for p in procs.values(): p.wait()
    try:
        while procs and fail is None:
            time.sleep(0.02)
            for s in sorted(procs):
                rc = procs[s].poll()
                if rc is None: continue
                del procs[s]
                out = os.path.join(work, 'out%d.json' % s)
                if os.path.exists(out):
                    with open(out) as f: results[s] = json.load(f)
                    if results[s]['fail']:
                        fail = dict(results[s]['fail'], shard=s); break
                    continue
                if rc in (70, -signal.SIGKILL, -signal.SIGTERM):
                    kill_all()
                    sys.stderr.write('harness error (worker %d, status %s)\n%s\n' % (s, rc, log_of(s)[-4000:]))
                    return 2
                # the process died inside a case
                try:
                    idx, case = json.load(open(os.path.join(work, 'cur%d' % s)))
                except Exception:
                    kill_all()
                    sys.stderr.write('harness error (worker %d died, status %s)\n%s\n' % (s, rc, log_of(s)[-4000:]))
                    return 2
                kill_all(); procs.clear()
                why = 'signal %d' % -rc if rc < 0 else 'exit status %d' % rc
                msg = 'the process ended while running this case (%s) %s' % (why, asan_summary(log_of(s)))
                fail = {'case': case, 'message': msg, 'shard': s, 'died': True}
                # shrink in forked children with the same random choices
                log = open(os.path.join(work, 'logf'), 'w')
                w2 = os.path.join(work, 'fork'); os.makedirs(w2)
                p = popen(['run', ID, str(per), str(seed), str(s), w2, pkg, str(tl), '--fork', str(idx)], env, log)
                try: p.wait(240)
                except subprocess.TimeoutExpired: p.kill(); p.wait()
                try:
                    r = json.load(open(os.path.join(w2, 'out%d.json' % s)))
                    if r['fail']: fail = dict(r['fail'], shard=s, died=True)
                except OSError: pass
                break
    finally:
        kill_all()
    ev = {'evaluations': sum(r['evals'] for r in results.values()),
          'distinct_nontrivial': len(set(h for r in results.values() for h in r['nontriv'])),
          'rule': m['rule'], 'samples': [], 'classes': {}, 'max_error_over_tolerance': {},
          'shards': W, 'build_s': round(tb, 2)}
    late = sum(r['late'] for r in results.values())
    if late: ev['not_run_out_of_time'] = late
    for s in sorted(results):
        r = results[s]
        for k, v in r['classes'].items(): ev['classes'][k] = ev['classes'].get(k, 0) + v
        for k, v in r['worst'].items():
            ev['max_error_over_tolerance'][k] = max(v, ev['max_error_over_tolerance'].get(k, 0))
    for j in range(3):
        for s in sorted(results):
            if len(ev['samples']) < 3 and j < len(results[s]['samples']) and (j > 0 or s < 3):
                ev['samples'].append(results[s]['samples'][j])
    ev['classes'] = dict(sorted(ev['classes'].items()))
    rc = 0
    if fail is not None:
        again = None
        try: again = one(ID, fail['case'], env, pkg, work)
        except RuntimeError as e: sys.stderr.write(str(e) + '\n')
        msg = again or fail['message']
        rep = {'property': ID, 'tier': tier, 'seed': seed, 'message': msg,
               'reproduced_in_fresh_process': again is not None, 'case': fail['case']}
        if not ev['samples']: ev['samples'].append(fail['case'])
        ev['evaluations'] = max(1, ev['evaluations'])
        h = hashlib.sha256(json.dumps(fail['case'], sort_keys=True).encode()).hexdigest()[:12]
        d = os.path.join(VERIF, 'replays'); os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s.json' % (ID, h))
        with open(path, 'w') as f: json.dump(rep, f, indent=1)
        print('%s: %s' % (ID, msg))
        print('case: %s' % json.dumps(fail['case'])[:2000])
        print('VIOLATION property=%s replay=%s' % (ID, os.path.relpath(path, VERIF)))
        rc = 1
    elif scale >= 1 and tier == 'quick' and not ev['distinct_nontrivial']:
        sys.stderr.write('%s: no non-trivial case was run: the check says nothing\n' % ID)
        rc = 2
    for l in known().get(ID, []): print(l)
    evidence = {'property': ID, 'tier': tier, 'seed': seed, 'level': 'exploration',
                'coverage': ev, 'wall_s': round(time.time() - t0, 2), 'violations': int(rc == 1)}
    d = os.path.join(VERIF, 'evidence'); os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, ID + '.json.tmp'), 'w') as f: json.dump(evidence, f, indent=1)
    os.replace(os.path.join(d, ID + '.json.tmp'), os.path.join(d, ID + '.json'))
    if rc == 0:
        print('%s: held on %d cases (%d distinct non-trivial) in %.1f s' %
              (ID, ev['evaluations'], ev['distinct_nontrivial'], time.time() - t0))
    return rc

def replay(path):
    with open(path) as f: d = json.load(f)
    ID = d['property']; m = meta(ID)
    pkg = build.ensure(m.get('variant', 'plain')); env = env_for(m.get('variant', 'plain'))
    work = tempfile.mkdtemp(prefix='igakit-verif-')
    try: msg = one(ID, d['case'], env, pkg, work)
    finally: shutil.rmtree(work, ignore_errors=True)
    if msg is None:
        print('%s: the case passes' % ID); return 0
    print('%s: %s' % (ID, msg)); print('VIOLATION property=%s replay=%s' % (ID, path)); return 1

def main(a):
    try:
        if a and a[0] == '--setup':
            for v in ('plain', 'asan'): print(build.ensure(v))
            return 0
        if a and a[0] == '--replay': return replay(a[1])
        tier = (a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick'))
        if tier not in ('quick', 'thorough') or a[0] not in IDS:
            sys.stderr.write('usage: check <C01..C30> quick|thorough\n'); return 2
        return run(a[0], tier)
    except build.BuildError as e:
        sys.stderr.write('build failed: %s\n' % e); return 2

if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main(sys.argv[1:]))
