"""Builds the IR model of /repo's current working tree.

clang -O0 -g (asserts off, as the makefile builds it) -> llvm-link -> sroa -> irexport (JSON).
Nothing is executed from /repo; the C++ in /verif/drivers only instantiates templates.
"""
import glob, hashlib, json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SRL_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
LLVM = '/usr/lib/llvm-18/bin/'


class Broken(Exception):
    """the analysis has lost its footing (anchor gone, source does not compile, ...)"""


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if p.returncode:
        raise Broken('command failed: %s\n%s' % (' '.join(cmd), p.stderr.decode(errors='replace')[-1500:]))
    return p.stdout


def file_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]


def exporter():
    src = os.path.join(VERIF, 'engine', 'irexport.cpp')
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'irexport-' + file_hash([src]))
    if not os.path.exists(out):
        flags = run([LLVM + 'llvm-config', '--cxxflags']).decode().split()
        flags = [f for f in flags if not f.startswith('-std=') and not f.startswith('-fno-exceptions')]
        libs = run([LLVM + 'llvm-config', '--ldflags', '--libs', 'core', 'irreader', 'support', 'analysis',
                    'demangle', 'bitreader', 'binaryformat']).decode().split()
        tmp = out + '.%d' % os.getpid()
        run(['clang++', '-std=c++17', '-O1'] + flags + ['-fno-rtti', src, '-o', tmp] + libs)
        os.replace(tmp, out)
    return out


CXX = ['clang++', '-std=c++17', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fstandalone-debug',
       '-DNDEBUG', '-w', '-emit-llvm', '-c']
CC = ['clang', '-std=c99', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-DNDEBUG', '-w', '-emit-llvm', '-c']


def repo_sources():
    lib = os.path.join(REPO, 'src/lib')
    cpp = sorted(glob.glob(lib + '/*.cpp'))
    c = sorted(glob.glob(lib + '/fpconv/*.c'))
    if len(cpp) < 5:
        raise Broken('no library sources under %s' % lib)
    return cpp, c


def module(drivers=(), lib=True, keep=None):
    """JSON model of the library linked with the named drivers (files in /verif/drivers)."""
    exp = exporter()
    cpp, c = repo_sources()
    hdrs = sorted(glob.glob(REPO + '/include/Srl/*') + glob.glob(REPO + '/src/lib/fpconv/*.h'))
    drv = [os.path.join(VERIF, 'drivers', d) for d in drivers]
    own = sorted(glob.glob(os.path.join(VERIF, 'drivers', '*.h')))
    key = file_hash((cpp + c if lib else []) + hdrs + drv + own + [os.path.join(VERIF, 'engine', 'irexport.cpp'),
                                                            os.path.join(VERIF, 'engine', 'build.py')])
    os.makedirs(BUILD, exist_ok=True)
    cache = os.path.join(BUILD, 'model-%s.json' % key)
    if not os.path.exists(cache):
        tmp = tempfile.mkdtemp(prefix='srlir', dir=BUILD)
        try:
            jobs = []
            for i, f in enumerate(cpp if lib else []):
                jobs.append(CXX + ['-I' + REPO + '/include', f, '-o', '%s/%d_%s.bc' % (tmp, i, os.path.basename(f))])
            for i, f in enumerate(c if lib else []):
                jobs.append(CC + ['-I' + REPO + '/include', f, '-o', '%s/c%d_%s.bc' % (tmp, i, os.path.basename(f))])
            for i, f in enumerate(drv):
                jobs.append(CXX + ['-I' + REPO + '/include', '-I' + os.path.join(VERIF, 'drivers'), f, '-o', '%s/d%d.bc' % (tmp, i)])
            with ThreadPoolExecutor(8) as ex:
                list(ex.map(run, jobs))
            bcs = sorted(glob.glob(tmp + '/*.bc'))
            run([LLVM + 'llvm-link'] + bcs + ['-o', tmp + '/all.bc'])
            run([LLVM + 'opt', '-passes=sroa', tmp + '/all.bc', '-o', tmp + '/opt.bc'])
            data = run([exp, tmp + '/opt.bc'])
            json.loads(data)
            # keep the newest models only
            old = sorted(glob.glob(BUILD + '/model-*.json'), key=os.path.getmtime)
            for o in old[:-10]:
                try: os.remove(o)
                except OSError: pass
            t2 = cache + '.%d' % os.getpid()
            open(t2, 'wb').write(data)
            os.replace(t2, cache)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return json.load(open(cache))


if __name__ == '__main__':
    exporter()
    m = module(sys.argv[1:])
    print(len(m['functions']), 'functions')
