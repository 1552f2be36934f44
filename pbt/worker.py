"""Runs one shard of one check (Hypothesis), or a single case.

worker.py run  ID N SEED SHARD WORKDIR PKGDIR TLIMIT [--fork SKIP]
worker.py one  ID CASEFILE PKGDIR           exit 0 / 1 (prints the message)
"""
import sys, os, json, time, zlib, signal, hashlib, traceback, resource
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
CPU_PER_CASE = 40.0

def setup_path(pkg):
    sys.path[:0] = [pkg, HERE]
    sys.path.append('/opt/venv/lib/python3.12/site-packages')

class _HypFinder(object):
    """hypothesis from the tools venv, and nothing else of that venv."""
    names = ('hypothesis', 'sortedcontainers', 'attr', 'attrs', 'exceptiongroup')
    @classmethod
    def find_spec(cls, name, path=None, target=None):
        if path is None and (name in cls.names or name.startswith('_hypothesis_')):
            from importlib.machinery import PathFinder
            return PathFinder.find_spec(name, [VT])
        return None

def limits():
    if os.environ.get('IGAKIT_VERIF_VARIANT') != 'asan':
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def arm(on=True):
    # default action of SIGPROF ends the process: a call that never returns is found
    signal.setitimer(signal.ITIMER_PROF, CPU_PER_CASE if on else 0)

def load(ID):
    import core
    from props import load_all
    load_all(ID)
    return core.PROPS[ID]

def message(e):
    import core
    if isinstance(e, core.Violation): return str(e)
    tb = traceback.extract_tb(e.__traceback__)
    where = ''
    for f in reversed(tb):
        if '/igakit/' in f.filename:
            where = ' at igakit/%s:%s (%s)' % (os.path.basename(f.filename), f.name, (f.line or '').strip()[:80])
            break
    else:
        f = tb[-1]; where = ' at %s:%s (%s)' % (os.path.basename(f.filename), f.name, (f.line or '').strip()[:80])
    return 'unexpected %s: %s%s' % (type(e).__name__, str(e)[:300], where)

def run_case(prop, case, rec):
    """None or a message."""
    import core, sut
    sut.Afresh.on = zlib.crc32(json.dumps(case, sort_keys=True).encode()) % 4 == 0
    try:
        prop.check(case, rec)
    except core.Reject:
        return None
    except (KeyboardInterrupt, ImportError):
        raise
    except OSError as e:
        if e.errno in (28, 24, 12): raise
        return message(e)
    except Exception as e:
        return message(e)
    return None

def fork_case(prop, case, rec):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            arm()
            m = run_case(prop, case, rec)
            os.write(w, ('N' if m is None else 'V' + m[:3000]).encode('utf8', 'replace'))
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    while True:
        b = os.read(r, 65536)
        if not b: break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if data[:1] == b'N': return None
    if data[:1] == b'V': return data[1:].decode('utf8', 'replace')
    return 'the process ended while running this case (%s)' % death(st)

def death(st):
    if os.WIFSIGNALED(st):
        s = os.WTERMSIG(st)
        if s == signal.SIGPROF: return 'no result after %g s of CPU time' % CPU_PER_CASE
        return 'signal %s' % signal.Signals(s).name
    return 'exit status %d' % os.WEXITSTATUS(st)

def main_one(ID, casefile, pkg):
    setup_path(pkg); limits()
    import core
    prop = load(ID)
    with open(casefile) as f: d = json.load(f)
    case = d['case'] if isinstance(d, dict) and 'case' in d and 'property' in d else d
    arm()
    m = run_case(prop, case, core.Rec())
    if m is None:
        print('OK'); sys.stdout.flush(); os._exit(0)
    print('FAIL ' + m); sys.stdout.flush(); os._exit(1)

def main_run(ID, N, SEED, SHARD, WORKDIR, PKG, TLIMIT, skip=None):
    setup_path(PKG); limits()
    sys.meta_path.insert(0, _HypFinder)
    import hypothesis
    from hypothesis import given, settings, seed, HealthCheck, Phase, Verbosity
    import core
    prop = load(ID)
    rec = core.Rec()
    out = os.path.join(WORKDIR, 'out%d.json' % SHARD)
    cur = os.open(os.path.join(WORKDIR, 'cur%d' % SHARD), os.O_CREAT | os.O_RDWR | os.O_TRUNC, 0o600)
    t0 = time.time()
    st = {'i': 0, 'fail': None, 'failed': {}, 'tfail': None, 'late': 0}
    forking = skip is not None
    def one(case):
        st['i'] += 1
        b = (json.dumps([st['i'], case])).encode()
        os.ftruncate(cur, 0); os.pwrite(cur, b, 0)
        rec.begin(case)
        if forking:
            if st['i'] < skip: return None
            m = fork_case(prop, case, rec)
        else:
            arm()
            m = run_case(prop, case, rec)
            arm(False)
        if m is None: rec.end()
        return m
    def finish():
        res = {'evals': rec.evals, 'classes': rec.classes, 'worst': rec.worst,
               'nontriv': sorted(rec.nontriv), 'samples': rec.samples, 'late': st['late'],
               'fail': st['fail'], 'wall': time.time() - t0}
        with open(out + '.tmp', 'w') as f: json.dump(res, f)
        os.rename(out + '.tmp', out)
        sys.stdout.flush(); sys.stderr.flush()
        os._exit(0)
    if SHARD == 0:
        for c in prop.regress:
            m = one(c)
            if m is not None:
                st['fail'] = {'case': c, 'message': m, 'origin': 'regression case'}
                finish()
    h = int.from_bytes(hashlib.sha256(('%s/%d/%d' % (ID, SEED, SHARD)).encode()).digest()[:8], 'big')
    strategy = prop.strategy() if callable(prop.strategy) else prop.strategy

    @seed(h)
    @settings(max_examples=N, database=None, deadline=None, derandomize=False,
              suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink),
              report_multiple_bugs=False, print_blob=False, verbosity=Verbosity.quiet)
    @given(strategy)
    def test(case):
        case = json.loads(json.dumps(case))
        now = time.time()
        m = None
        if st['tfail'] is not None: m = st['failed'].get(core.canon(case))
        if m is None:
            if st['tfail'] is not None:
                if now - st['tfail'] > 45: return      # end of the shrinking budget
            elif now - t0 > TLIMIT:
                st['late'] += 1
                return
            m = one(case)
        if m is not None:
            if st['tfail'] is None: st['tfail'] = time.time()
            st['failed'][core.canon(case)] = m
            st['fail'] = {'case': case, 'message': m}
            raise core.Violation('failure')            # one place: Hypothesis tells failures apart by it
    try:
        test()
    except core.Violation:
        pass
    except (hypothesis.errors.Flaky, BaseExceptionGroup) as e:
        if st['fail'] is None: raise
        st['fail']['flaky'] = True
    finish()

if __name__ == '__main__':
    a = sys.argv[1:]
    try:
        if a[0] == 'one': main_one(*a[1:4])
        sk = None
        if '--fork' in a:
            k = a.index('--fork'); sk = int(a[k + 1]); del a[k:k + 2]
        main_run(a[1], int(a[2]), int(a[3]), int(a[4]), a[5], a[6], float(a[7]), sk)
    except SystemExit: raise
    except BaseException:
        traceback.print_exc()
        sys.stderr.flush()
        os._exit(70)
