"""Build the analyser and the IR of the code under analysis."""
import fcntl, hashlib, json, os, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('QA_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CXX = '/usr/bin/clang++-18'
GCCDIR = '/usr/lib/gcc/x86_64-linux-gnu/9'
CONFIGS = {
    'OFF': [],
    'SSE': ['-DQUADIRON_USE_SIMD', '-msse4.1'],
    'AVX': ['-DQUADIRON_USE_SIMD', '-mavx2'],
}
BASE = ['--gcc-install-dir=' + GCCDIR, '-std=c++14', '-fPIC', '-DNDEBUG']


class Broken(Exception):
    """the analysis could not be carried out"""


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, **kw)
    if r.returncode:
        raise Broken('command failed: %s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout


def tool(target='qai'):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        sh(['make', '-s', '-j4', '-C', os.path.join(VERIF, 'tool'),
            '../build/' + target])
    return os.path.join(BUILD, target)


def gen_dir():
    d = os.path.join(BUILD, 'gen')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, 'build_info.h')
    txt = '#define PACKAGE "quadiron"\n#define VERSION "0"\n'
    if not os.path.exists(p) or open(p).read() != txt:
        fd, tmp = tempfile.mkstemp(dir=d)
        with os.fdopen(fd, 'w') as f:
            f.write(txt)
        os.rename(tmp, p)
    return d


def sources():
    src = os.path.join(REPO, 'src')
    return sorted(os.path.join(src, f) for f in os.listdir(src)
                  if f.endswith('.cpp'))


def tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, 'src'), os.path.join(VERIF, 'driver')]
    for r in roots:
        for dp, dn, fn in sorted(os.walk(r)):
            dn.sort()
            for f in sorted(fn):
                p = os.path.join(dp, f)
                h.update(p.encode() + b'\0')
                with open(p, 'rb') as fh:
                    h.update(fh.read())
    h.update(open(os.path.abspath(__file__), 'rb').read())
    return h.hexdigest()[:16]


def compile_tu(src, out, flags, extra=()):
    sh([CXX] + BASE + flags + list(extra) +
       ['-I', os.path.join(REPO, 'src'), '-isystem', gen_dir(),
        '-I', os.path.join(VERIF, 'driver'),
        '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-emit-llvm', '-c',
        '-Wno-everything', src, '-o', out])


def module(cfg, drivers=(), extra=(), passes='function(sroa,early-cse,simplifycfg)', rt=False):
    """one bitcode module: the whole library plus the drivers"""
    d = os.path.join(BUILD, 'ir', tree_hash())
    key = hashlib.sha256(repr((cfg, sorted(drivers), list(extra), passes, rt)).encode()).hexdigest()[:10]
    out = os.path.join(d, '%s.%s.bc' % (cfg, key))
    os.makedirs(d, exist_ok=True)
    with open(out + '.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        prune(d)
        jobs = []
        for s in sources():
            jobs.append((s, os.path.join(d, '%s.%s.bc' % (cfg, os.path.basename(s)))))
        for s in drivers:
            jobs.append((os.path.join(VERIF, 'driver', s),
                         os.path.join(d, '%s.%s.bc' % (cfg, s))))
        ek = hashlib.sha256(repr(list(extra)).encode()).hexdigest()[:6]
        jobs = [(s, o[:-3] + '.' + ek + '.o.bc') for s, o in jobs]

        def one(j):
            with open(j[1] + '.lock', 'w') as l2:
                fcntl.flock(l2, fcntl.LOCK_EX)
                if not os.path.exists(j[1]):
                    compile_tu(j[0], j[1] + '.tmp', CONFIGS[cfg], extra)
                    os.rename(j[1] + '.tmp', j[1])
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(one, jobs))
        tmp = out + '.tmp'
        sh(['/usr/bin/llvm-link-18', '-o', tmp] + [o for _, o in jobs])
        if rt:
            sh(['/usr/bin/llvm-link-18', '--only-needed', '-o', tmp, tmp, runtime(d)])
        sh(['/usr/bin/opt-18', '-passes=' + passes, tmp, '-o', tmp + '2'])
        os.remove(tmp)
        os.rename(tmp + '2', out)
    return out


def runtime(d):
    """the bodies of library code that is otherwise only there compiled"""
    out = os.path.join(d, 'rt.bc')
    with open(out + '.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            compile_tu(os.path.join(VERIF, 'driver', 'rt.cpp'), out + '.tmp',
                       [], ['-fno-builtin', '-g0'])
            os.rename(out + '.tmp', out)
    return out


def prune(keep):
    """drop the bitcode of earlier trees"""
    base = os.path.join(BUILD, 'ir')
    try:
        ds = [os.path.join(base, x) for x in os.listdir(base)]
        ds = sorted((x for x in ds if x != keep), key=os.path.getmtime)
        for x in ds[:-6]:
            for f in os.listdir(x):
                os.remove(os.path.join(x, f))
            os.rmdir(x)
    except OSError:
        pass
