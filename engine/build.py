"""compile /repo's current sources: LLVM IR (for the obligations) and a native
shared library (for replay), one harness and one dimension at a time."""
import hashlib, os, re, shutil, subprocess, sys, ctypes, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
import ir

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.build')
CLANG = 'clang++-18'
GXX = 'g++'

STD = ['algorithm', 'array', 'bitset', 'cassert', 'cmath', 'float.h', 'functional', 'iostream', 'map', 'math.h', 'mpi.h',
       'mutex', 'omp.h', 'set', 'stack', 'thread', 'unordered_map', 'vector']


class BuildError(Exception):
    pass


def repo_hash():
    h = hashlib.sha256()
    for top in ('include', 'mpisph', 'app'):
        for dp, dn, fn in sorted(os.walk(os.path.join(REPO, top))):
            dn.sort()
            for f in sorted(fn):
                if f.endswith(('.h', '.cc', '.hpp', '.tcc', '.cpp', '.par')):
                    p = os.path.join(dp, f)
                    h.update(p.encode())
                    with open(p, 'rb') as g:
                        h.update(g.read())
    return h.hexdigest()


_rh = None
_lock = threading.Lock()


def rh():
    global _rh
    if _rh is None:
        _rh = repo_hash()
    return _rh


def overlay(dst):
    """copy of the sources with the two mechanical substitutions clang needs
    (g++ accepts both constructs as they are; see DESIGN.md)"""
    if os.path.exists(dst + '/ok'):
        return
    if os.path.exists(dst):
        shutil.rmtree(dst)
    os.makedirs(dst)
    for top in ('include', 'mpisph', 'app'):
        shutil.copytree(os.path.join(REPO, top), os.path.join(dst, top),
                        ignore=shutil.ignore_patterns('*.h5', '*.png', '*.pdf'))
    p = dst + '/mpisph/utils.h'
    if os.path.exists(p):
        s = open(p).read()
        s = s.replace('std::vector<int> & count = 0)', 'std::vector<int> & count)')
        open(p, 'w').write(s)
    p = dst + '/include/physics/eos/eos.h'
    if os.path.exists(p):
        s = open(p).read()
        s = re.sub(r'template<>\s*\n(\s*)double(\s+)eos_t', r'\n\1double\2eos_t', s)
        open(p, 'w').write(s)
    open(dst + '/ok', 'w').close()


def incs(root):
    r = ['include', 'include/physics', 'include/physics/eos', 'mpisph', 'app/drivers/include', 'app/id_generators',
         'include/tree_topology', 'app']
    return ['-I' + os.path.join(root, x) for x in r]


SYS = ['-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include', '-isystem', '/usr/include/hdf5/openmpi']


def flags(dim, defs):
    return ['-std=gnu++17', '-DEXT_GDIMENSION=%d' % dim, '-DPARALLEL_IO', '-DLOG_STRIP_LEVEL=0', '-DOMPI_SKIP_MPICXX', '-w'] + list(defs)


def cdir():
    d = os.path.join(CACHE, rh()[:20])
    os.makedirs(d, exist_ok=True)
    return d


def compile_ir(src, dim, defs=(), opt=('-O1',)):
    key = hashlib.sha256((open(src).read() + repr((dim, defs, opt)) + prelude_text()).encode()).hexdigest()[:16]
    out = os.path.join(cdir(), 'i%s.ll' % key)
    if os.path.exists(out):
        return out
    with _lock:
        overlay(os.path.join(cdir(), 'ov'))
    ov = os.path.join(cdir(), 'ov')
    tmp = out + '.tmp%d' % os.getpid()
    cmd = [CLANG, '-fdelayed-template-parsing'] + flags(dim, defs) + ['-I' + VERIF + '/stub', '-I' + VERIF + '/engine'] + incs(ov) + SYS + list(opt) + \
        ['-ffp-contract=off', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-math-errno'][:-1] + \
        ['-S', '-emit-llvm', src, '-o', tmp]
    p = subprocess.run(cmd, capture_output=True, text=True, cwd=os.path.dirname(src))
    if p.returncode:
        raise BuildError('clang failed on %s (dim %d):\n%s' % (src, dim, p.stderr[:4000]))
    os.rename(tmp, out)
    return out


def compile_so(src, dim, defs=(), omp=False):
    key = hashlib.sha256((open(src).read() + repr((dim, defs, omp)) + prelude_text()).encode()).hexdigest()[:16]
    out = os.path.join(cdir(), 'n%s.so' % key)
    if os.path.exists(out):
        return out
    tmp = out + '.tmp%d' % os.getpid()
    cmd = [GXX] + flags(dim, defs) + incs(REPO) + ['-I' + VERIF + '/engine'] + (['-idirafter', VERIF + '/stub'] if omp else ['-I' + VERIF + '/stub']) + SYS + \
        ['-O1', '-ffp-contract=off', '-fPIC', '-shared', '-g0'] + (['-fopenmp'] if omp else []) + [src, '-o', tmp,
         '-L/usr/lib/x86_64-linux-gnu/hdf5/openmpi', '-lmpi', '-lhdf5']
    p = subprocess.run(cmd, capture_output=True, text=True, cwd=os.path.dirname(src))
    if p.returncode:
        raise BuildError('g++ failed on %s (dim %d):\n%s' % (src, dim, p.stderr[:4000]))
    os.rename(tmp, out)
    return out


_pt = None


def prelude_text():
    global _pt
    if _pt is None:
        _pt = ''.join(open(os.path.join(VERIF, 'engine', f)).read() for f in sorted(os.listdir(os.path.join(VERIF, 'engine'))) if f.endswith('.h') or f == 'build.py')
    return _pt


class Native:
    def __init__(self, path):
        self.path = path
        self.lib = ctypes.CDLL(path, mode=ctypes.RTLD_LOCAL)
        self.syms = None

    def addr(self, name):
        """address of any symbol, also local ones"""
        if self.syms is None:
            out = subprocess.run(['nm', self.path], capture_output=True, text=True).stdout
            self.syms = {}
            for l in out.splitlines():
                p = l.split()
                if len(p) == 3:
                    self.syms[p[2]] = int(p[0], 16)
            ref = next(s for s in self.syms if s.startswith(('w_', 't_', 'g_')) and hasattr(self.lib, s))
            self.base = ctypes.cast(getattr(self.lib, ref), ctypes.c_void_p).value - self.syms[ref]
        if name not in self.syms:
            return None
        return self.base + self.syms[name]


def modules(jobs):
    """jobs: [(key, src, dim, defs)] -> {key: (Module, Native)} compiled in parallel"""
    ex = ThreadPoolExecutor(8)
    a = {k: (ex.submit(compile_ir, s, d, tuple(f)), ex.submit(compile_so, s, d, tuple(f))) for k, s, d, f in jobs}
    r = {}
    for k, (x, y) in a.items():
        r[k] = (ir.Module(open(x.result()).read()), Native(y.result()))
    return r
