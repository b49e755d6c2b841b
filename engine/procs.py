"""whole-program runs of the real code (bounded stand-ins): build one harness
with g++ against /repo's current sources, run it alone or under mpirun"""
import hashlib, os, re, shutil, signal, subprocess, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
import build

ENV = dict(OMP_NUM_THREADS='1', OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1',
           OMPI_MCA_btl_vader_single_copy_mechanism='none', OMPI_MCA_btl='self,vader,tcp', OMPI_MCA_mpi_yield_when_idle='1',
           OMPI_MCA_rmaps_base_oversubscribe='1', OMPI_MCA_hwloc_base_binding_policy='none', OMPI_MCA_plm_rsh_agent='', HWLOC_COMPONENTS='-gl',
           ASAN_OPTIONS='detect_leaks=0')

HELLO = '''#include <mpi.h>
#include <cstdio>
int main(int c, char ** v) { MPI_Init(&c, &v); int r, s, x; MPI_Comm_rank(MPI_COMM_WORLD, &r); MPI_Comm_size(MPI_COMM_WORLD, &s);
 MPI_Allreduce(&r, &x, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD); if(r == 0) printf("OK %d\\n", x); MPI_Finalize(); return 0; }
'''

LIMIT = 120


def exe(src, dim, defs=()):
    key = hashlib.sha256((open(src).read() + repr((dim, defs)) + build.prelude_text() + open(__file__).read()).encode()).hexdigest()[:16]
    out = os.path.join(build.cdir(), 'x' + key)
    if os.path.exists(out):
        return out
    tmp = out + '.tmp%d' % os.getpid()
    cmd = [build.GXX] + build.flags(dim, defs) + build.incs(build.REPO) + ['-I' + build.VERIF + '/engine', '-idirafter', build.VERIF + '/stub'] + build.SYS + \
        ['-O1', '-ffp-contract=off', '-fopenmp', '-fno-omit-frame-pointer', src, '-o', tmp, '-L/usr/lib/x86_64-linux-gnu/hdf5/openmpi', '-lmpi', '-lhdf5']
    p = subprocess.run(cmd, capture_output=True, text=True, cwd=os.path.dirname(src))
    if p.returncode:
        raise build.BuildError('g++ failed on %s (dim %d):\n%s' % (src, dim, p.stderr[:4000]))
    os.rename(tmp, out)
    return out


def exes(jobs):
    """jobs: {key: (src, dim, defs)}"""
    with ThreadPoolExecutor(8) as ex:
        f = {k: ex.submit(exe, os.path.join(build.VERIF, 'props', s), d, tuple(x)) for k, (s, d, x) in jobs.items()}
        return {k: v.result() for k, v in f.items()}


def run(path, args, np=1, timeout=240):
    """('ok', count, text) | ('fail', text) | ('none', text): no answer"""
    tmp = tempfile.mkdtemp(prefix='vrun')
    env = dict(os.environ)
    env.update(ENV)
    env['TMPDIR'] = tmp
    cmd = ([] if np == 1 else ['mpirun', '-np', str(np)]) + [path] + [str(a) for a in args]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, cwd=tmp, env=env,
                         start_new_session=True)
    try:
        try:
            out = p.communicate(timeout=timeout)[0]
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            return ('none', 'no end within %d s' % timeout)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    out = re.sub(r'\x1b\[[0-9;]*m', '', out.decode(errors='replace'))
    m = re.findall(r'FAIL ([^\n]*)', out)
    if m:
        return ('fail', m[0][:1500])
    k = re.findall(r'OK (\d+)', out)
    if p.returncode == 0 and k:
        return ('ok', int(k[-1]), out)
    a = re.findall(r'[^\n]*(?:Assertion|ERROR: AddressSanitizer|terminate called|what\(\))[^\n]*', out)
    return ('fail', (a[0] if a else 'ended with status %s: %s' % (p.returncode, out[-600:]))[:1500])


_mpi = None


def mpi_ok():
    """can several processes be started here at all?"""
    global _mpi
    if _mpi is None:
        d = tempfile.mkdtemp(prefix='vhello')
        try:
            open(d + '/h.cc', 'w').write(HELLO)
            p = subprocess.run(['g++', '-DOMPI_SKIP_MPICXX'] + build.SYS + [d + '/h.cc', '-o', d + '/h', '-lmpi'], capture_output=True)
            _mpi = p.returncode == 0 and run(d + '/h', [], 3, 60)[0] == 'ok'
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return _mpi


def sweep(ck, name, jobs, desc):
    """jobs: [(label, exe path, args, np)], run side by side (by cores). One
    bounded record; the first failing run is the failing input."""
    jobs = list(jobs)
    if ck.violations:
        ck.notes.append('%s: not run, the property is already violated' % name)
        return None
    if any(j[3] > 1 for j in jobs) and not mpi_ok():
        ck.notes.append('%s: several processes cannot be started here, those runs are left out' % name)
        jobs = [j for j in jobs if j[3] == 1]
    def one(j):
        lab, path, args, np = j
        r = run(path, args, np, LIMIT)
        if r[0] == 'none':      # once more
            r = run(path, args, np, LIMIT)
        return r

    def search():
        n, free, cv, stop = 0, [8], threading.Condition(), threading.Event()

        def go(j):
            k = min(j[3], 8)
            with cv:
                while free[0] < k:
                    cv.wait()
                free[0] -= k
            try:
                r = ('skip',) if stop.is_set() else one(j)
                if r[0] in ('fail', 'none'):
                    stop.set()
                return j, r
            finally:
                with cv:
                    free[0] += k
                    cv.notify_all()
        with ThreadPoolExecutor(16) as ex:
            res = list(ex.map(go, jobs))
        for j, r in res:
            if r[0] in ('fail', 'none'):
                w = r[1] if r[0] == 'fail' else 'the run does not end (%s, twice; it takes a few seconds otherwise)' % r[1]
                return dict(run=j[0], command=' '.join(map(str, j[2])), processes=j[3], program=os.path.basename(j[1]), what=w)
        return None, sum(r[1] for j, r in res)
    return ck.bounded(name, search, desc)
