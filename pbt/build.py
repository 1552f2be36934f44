"""Private builds of /repo's current working tree.

A build is a directory <root>/igakit with copies of the Python sources and a
freshly compiled extension.  It is keyed by the content of the sources, so a
change in /repo always gives a new build; nothing of /repo's own (editable,
mtime driven) build is used.
"""
import glob, hashlib, os, shutil, subprocess, sys, tempfile, fcntl, sysconfig

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('IGAKIT_VERIF_REPO', '/repo')
ROOT = os.environ.get('IGAKIT_VERIF_BUILD') or os.path.join(VERIF, '.build')
PY = '/opt/venv/bin/python'
SITE = '/opt/venv/lib/python3.12/site-packages'

class BuildError(Exception):
    pass

def _sources():
    src = os.path.join(REPO, 'igakit')
    out = []
    for dp, dn, fn in os.walk(src):
        dn[:] = sorted(d for d in dn if d != '__pycache__')
        for f in sorted(fn):
            if f.endswith(('.pyc', '.so', '.o', '.mod')): continue
            out.append(os.path.join(dp, f))
    return out

def key(variant):
    h = hashlib.sha256()
    h.update(variant.encode())
    for f in _sources() + [os.path.join(REPO, 'meson.build'), os.path.abspath(__file__)]:
        h.update(os.path.relpath(f, '/').encode() + b'\0')
        try:
            with open(f, 'rb') as fh: h.update(hashlib.sha256(fh.read()).digest())
        except OSError: pass
    return h.hexdigest()[:16]

def _run(cmd, cwd, env=None):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout

FLAGS = {
    'plain': ['-O2', '-g', '-fPIC'],
    'asan': ['-O1', '-g', '-fPIC', '-fno-omit-frame-pointer', '-fsanitize=address'],
}
FFLAGS = {'plain': [], 'asan': ['-fcheck=bounds', '-finit-real=nan', '-finit-integer=-20000']}

def _env():
    env = dict(os.environ)
    env['PATH'] = '/opt/venv/bin:' + env.get('PATH', '/usr/bin:/bin')
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['CCACHE_DISABLE'] = '1'
    return env

def _direct(tmp, work, variant):
    """f2py + gcc/gfortran; valid while the extension is igalib.f90 + igalib.pyf."""
    env = _env()
    shutil.copy(os.path.join(REPO, 'igakit', 'igalib.pyf'), work)
    shutil.copy(os.path.join(REPO, 'igakit', 'igalib.f90'), work)
    _run([PY, '-m', 'numpy.f2py', '--build-dir', work,
          os.path.join(work, 'igalib.pyf')], work, env)
    inc = _run([PY, '-c', 'import numpy,numpy.f2py,sysconfig;print(numpy.get_include());'
                'print(numpy.f2py.get_include());print(sysconfig.get_paths()["include"])'],
               work, env).split('\n')
    npy, f2, pyinc = [s.strip() for s in inc[:3]]
    flags = FLAGS[variant]
    procs = []
    I = ['-I' + npy, '-I' + f2, '-I' + pyinc]
    jobs = [['gfortran'] + flags + FFLAGS[variant] + ['-c', 'igalib.f90', '-o', 'igalib.o'],
            ['gcc'] + flags + I + ['-w', '-c', 'igalibmodule.c', '-o', 'igalibmodule.o'],
            ['gcc'] + flags + I + ['-w', '-c', os.path.join(f2, 'fortranobject.c'), '-o', 'fo.o']]
    for j in jobs:
        procs.append((j, subprocess.Popen(j, cwd=work, env=env, stdout=subprocess.PIPE,
                                          stderr=subprocess.STDOUT, text=True)))
    for j, pr in procs:
        o, _ = pr.communicate()
        if pr.returncode: raise BuildError('%s\n%s' % (' '.join(j), o[-4000:]))
    objs = ['igalib.o', 'igalibmodule.o', 'fo.o']
    if os.path.exists(os.path.join(work, 'igalib-f2pywrappers2.f90')):
        _run(['gfortran'] + flags + FFLAGS[variant] +
             ['-c', 'igalib-f2pywrappers2.f90', '-o', 'wrap.o'], work, env)
        objs.append('wrap.o')
    suf = sysconfig.get_config_var('EXT_SUFFIX') or '.so'
    _run(['gfortran'] + flags + ['-shared'] + objs +
         ['-o', os.path.join(tmp, 'igakit', 'igalib' + suf)], work, env)

def _meson(tmp, work, variant):
    """Fallback for a changed build layout: let the repository's meson.build do it."""
    env = _env()
    src = os.path.join(work, 'src'); bd = os.path.join(work, 'bd')
    shutil.copytree(REPO, src, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    env['CFLAGS'] = env['FFLAGS'] = ' '.join(FLAGS[variant])
    env['FFLAGS'] += ' ' + ' '.join(FFLAGS[variant])
    if variant == 'asan': env['LDFLAGS'] = '-fsanitize=address'
    _run(['meson', 'setup', '--buildtype=plain', '-Db_lundef=false', bd, src], work, env)
    _run(['ninja', '-C', bd], work, env)
    so = glob.glob(os.path.join(bd, '**', '*.so'), recursive=True)
    if not so: raise BuildError('no extension built')
    for s in so: shutil.copy(s, os.path.join(tmp, 'igakit'))

def ensure(variant='plain'):
    """Directory to put on sys.path for the current tree."""
    os.makedirs(ROOT, exist_ok=True)
    dest = os.path.join(ROOT, '%s-%s' % (variant, key(variant)))
    if os.path.exists(os.path.join(dest, 'OK')): 
        os.utime(dest)
        return dest
    with open(os.path.join(ROOT, 'lock-' + variant), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(dest, 'OK')): return dest
        tmp = tempfile.mkdtemp(prefix='tmp-', dir=ROOT)
        try:
            work = os.path.join(tmp, 'work'); os.makedirs(work)
            src = os.path.join(REPO, 'igakit')
            shutil.copytree(src, os.path.join(tmp, 'igakit'),
                            ignore=shutil.ignore_patterns('__pycache__', '*.so', '*.pyc'))
            f90 = sorted(os.path.relpath(f, src) for f in _sources()
                         if f.lower().endswith(('.f90', '.f', '.c', '.pyf', '.f95')) and f.startswith(src))
            if f90 == ['igalib.f90', 'igalib.pyf']:
                try: _direct(tmp, work, variant)
                except BuildError:
                    shutil.rmtree(work); os.makedirs(work)
                    _meson(tmp, work, variant)
            else:
                _meson(tmp, work, variant)
            shutil.rmtree(work)
            open(os.path.join(tmp, 'OK'), 'w').close()
            if os.path.exists(dest): shutil.rmtree(dest)
            os.rename(tmp, dest)
        finally:
            if os.path.exists(tmp): shutil.rmtree(tmp, ignore_errors=True)
        # keep few old builds
        old = sorted((d for d in glob.glob(os.path.join(ROOT, variant + '-*'))),
                     key=lambda d: os.path.getmtime(d), reverse=True)
        for d in old[12:]: shutil.rmtree(d, ignore_errors=True)
    return dest

if __name__ == '__main__':
    for v in sys.argv[1:] or ['plain']: print(ensure(v))
