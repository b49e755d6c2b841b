#!/usr/bin/env python3
"""mkseed.py SPEC.py : SPEC defines id, prop, dims, edits=[(file, old, new)], demo (C++ text), needs, breaks.
Builds /verif/seeded/<id> after confirming it in a scratch copy."""
import sys, os, subprocess, shutil, json, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
rc = '/tmp/w/rc'
if not os.path.exists(rc):
    os.makedirs('/tmp/w', exist_ok=True)
    subprocess.run(['cp', '-a', '/repo', rc], check=True)
subprocess.run(['git', '-C', rc, 'checkout', '-q', '--', '.'])
subprocess.run(['git', '-C', rc, 'fetch', '-q', '/repo', 'HEAD'], capture_output=True)
subprocess.run(['git', '-C', rc, 'reset', '-q', '--hard', 'FETCH_HEAD'])
for f, o, n in ns['edits']:
    p = os.path.join(rc, f)
    s = open(p).read()
    c = s.count(o)
    if c != 1 and not ns.get('first'):
        sys.exit('%s: old text occurs %d times' % (f, c))
    open(p, 'w').write(s.replace(o, n, 1))
patch = subprocess.run(['git', '-C', rc, 'diff'], capture_output=True, text=True).stdout
d = os.path.join(V, 'seeded', ns['id'])
if os.path.exists(d):
    shutil.rmtree(d)
os.makedirs(d + '/stub/flecsi/data')
open(d + '/patch.diff', 'w').write(patch)
for f in ('flecsi/data/data_client.h', 'omp.h'):
    if f == 'omp.h' and ns.get('openmp'):
        continue
    shutil.copy(V + '/stub/' + f, d + '/stub/' + f)
for f in ns.get('stubs', ()):
    os.makedirs(os.path.dirname(d + '/stub/' + f), exist_ok=True)
    shutil.copy(V + '/stub/' + f, d + '/stub/' + f)
shutil.copy(V + '/tools/demo/prelude.h', d + '/prelude.h')
open(d + '/demo.cc', 'w').write(ns['demo'])
sh = open(V + '/tools/demo/demo.sh').read().replace('DIMS', ' '.join(map(str, ns.get('dims', (3,)))))
if ns.get('openmp'):
    sh = sh.replace('-O1 -w', '-O1 -w -fopenmp')
if ns.get('np'):
    sh = sh.replace('timeout 100 "./demo$dim"', 'timeout 100 env OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none mpirun -np %d "./demo$dim"' % ns['np'])
if ns.get('run'):
    sh = re.sub(r'  \(cd "\$dir" && timeout 100.*\n', lambda m: ns['run'], sh)
open(d + '/demo.sh', 'w').write(sh)
os.chmod(d + '/demo.sh', 0o755)
json.dump(dict(property=ns['prop'], needs=ns['needs'], what_it_breaks=ns['breaks']), open(d + '/meta.json', 'w'), indent=1)
bad = subprocess.run(['bash', d + '/demo.sh'], cwd=rc, capture_output=True, text=True)
good = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
print('demo: patched rc', bad.returncode, (bad.stdout + bad.stderr)[-300:].strip(), '| unchanged rc', good.returncode, (good.stdout + good.stderr)[-300:].strip())
r = subprocess.run(['python3-vt', V + '/props/%s.py' % ns['prop']], env=dict(os.environ, VERIF_REPO=rc), capture_output=True, text=True)
print('check rc', r.returncode, '\n'.join(r.stdout.strip().splitlines()[-4:])[:1200])
if '--tests' in sys.argv:
    pass
subprocess.run(['git', '-C', rc, 'checkout', '-q', '--', '.'])
if bad.returncode == 0 or good.returncode != 0:
    print('NOT A GOOD SEED')
