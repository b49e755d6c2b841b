"""Symbolic inputs of a function under contract, and the same inputs laid out
in native memory for replay against the real code."""
import ctypes, math, random, struct, os, pickle, signal, sys, time, mmap
import sx, term as t, ir
from term import TRUE, FALSE


def sortw(ty):
    return 8 if ty[0] == 'p' else (ty[1] // 8 if ty[1] > 1 else 1)


class World:
    def __init__(self, m):
        self.m = m
        self.objs = {}         # name -> Obj
        self.vecs = {}         # name -> dict
        self.n = 0
        self.ex = sx.Exec(m)   # for default()
        self.pre = []          # preconditions (bool terms)
        self.conv = {}

    def ty(self, prefix):
        """struct type whose name starts with prefix"""
        if isinstance(prefix, tuple):
            return prefix
        if prefix in ('double', 'f64'):
            return ir.F64
        if prefix == 'i64':
            return ('i', 64)
        if prefix == 'i32':
            return ('i', 32)
        c = [k for k in self.m.types if k == prefix or k.startswith(prefix)]
        if not c:
            raise sx.Unsupported('type %s not in the module' % prefix)
        c.sort(key=len)
        return ('s', c[0])

    def obj(self, name, ty=None, size=None, fields=None, ptrs=None, kind='input'):
        if ty is not None:
            ty = self.ty(ty)
            size = self.m.size(ty)
            fields = dict(self.m.flatten(ty))
        o = sx.Obj(name, size, kind, fields=fields, ptrs=ptrs)
        self.objs[name] = o
        return o

    def doubles(self, name, n):
        return self.obj(name, None, 8 * n, {8 * i: ir.F64 for i in range(n)})

    def u64s(self, name, n):
        return self.obj(name, None, 8 * n, {8 * i: ('i', 64) for i in range(n)})

    def out(self, name, size, fields=None):
        """output buffer, contents irrelevant on entry"""
        return self.obj(name, None, size, fields, kind='undef')

    def length(self, name, umax=2 ** 31 - 1):
        return t.sym(name, 64, umax)

    def vec_ptr(self, name, ty, n=None):
        """std::vector<T*> of symbolic length n; the elements are distinct
        objects (laid out in one backing store)"""
        ty = self.ty(ty)
        n = n if n is not None else self.length('n_' + name)
        sz, fl = self.m.size(ty), dict(self.m.flatten(ty))
        back = sx.Obj(name + '.', None, 'input', elem=sz, log=True, fields=fl)
        back.ufp = name + '.'
        arr = sx.Obj(name + '[]', None, 'input', elem=8, log=True, fields={0: ir.PTR},
                     ptrs={0: lambda i: sx.Ptr(back, t.mul(t.bv(sz, 64), i))})
        end = t.mul(t.bv(8, 64), n)
        v = sx.Obj(name, 24, 'input', ptrs={0: sx.Ptr(arr, 0), 8: sx.Ptr(arr, end), 16: sx.Ptr(arr, end)})
        self.objs[name] = v
        self.vecs[name] = dict(kind='ptr', back=back, sz=sz, fields=fl, n=n, arr=arr, ty=ty)
        return v

    def vec(self, name, ty, n=None, cap=True):
        """std::vector<T> by value of symbolic length n"""
        ty = self.ty(ty)
        n = n if n is not None else self.length('n_' + name)
        sz = self.m.size(ty)
        fl = dict(self.m.flatten(ty))
        arr = sx.Obj(name + '[]', None, 'input', elem=sz, log=True, fields=fl)
        end = t.mul(t.bv(sz, 64), n)
        v = sx.Obj(name, 24, 'input', ptrs={0: sx.Ptr(arr, 0), 8: sx.Ptr(arr, end), 16: sx.Ptr(arr, end)})
        self.objs[name] = v
        self.vecs[name] = dict(kind='val', sz=sz, fields=fl, n=n, arr=arr, ty=ty)
        return v

    def array(self, name, ty, n):
        ty = self.ty(ty)
        sz = self.m.size(ty)
        fl = dict(self.m.flatten(ty))
        arr = sx.Obj(name + '[]', None, 'input', elem=sz, log=True, fields=fl)
        self.objs[name] = arr
        self.vecs[name] = dict(kind='arr', sz=sz, fields=fl, n=n, arr=arr, ty=ty)
        return arr

    # symbolic reads of the initial state
    def get(self, o, off, ty=ir.F64):
        if isinstance(o, str):
            o = self.objs[o]
        return self.ex.default(o, off, sortw(ty), ty)

    def elem(self, name, idx, off, ty=ir.F64):
        """initial value of element idx (term) at offset off"""
        v = self.vecs[name]
        if v['kind'] == 'ptr':
            return t.uf('%s.%d' % (name, off), (idx,), sx.sort_of(v['fields'].get(off, ty)))
        return t.uf('%s+%d' % (v['arr'].name + '[]', off), (idx,), sx.sort_of(ty))


class Gen:
    """lazy random valuation of symbols and of indexed inputs"""

    def __init__(self, rng, hook=None, nmax=5, fixed=None, pool=(), fpool=()):
        self.rng, self.hook, self.nmax = rng, hook, nmax
        self.pool = pool
        self.fpool = fpool
        self.vals = {}
        self.tab = {}
        self.env = {'*': self.sym}
        self.reg = {}
        self.cache = {}
        self.fixed = fixed or {}
        self.mode = rng.random()

    def ufcall(self, name, a, s):
        f = self.reg.get(name)
        if f is not None:
            return f(*a)
        return self.indexed(name, a[0] if len(a) == 1 else tuple(a), s)

    def sym(self, x):
        if x in self.cache:
            return self.cache[x]
        v = self.cache[x] = self._sym(x)
        return v

    def _sym(self, x):
        n = str(x.d)
        v = self.hook(n, x, self) if self.hook else None
        if n in self.fixed and compatible(self.fixed[n], v):
            v = self.fixed[n]
        else:
            if v is None:
                v = self.rand(x.s, x)
        self.vals[n] = v
        return v

    def rand(self, s, x=None):
        r = self.rng
        if s == 'f':
            if self.fpool and r.random() < .12:
                return r.choice(self.fpool) * r.choice((1., 1.001, .999, 2., .5))
            return self.f()
        if s == 'b':
            return r.random() < .5
        um = getattr(getattr(x, 'd', None), 'umax', None) or (1 << s) - 1
        n = str(x.d) if x is not None and x.op == 'sym' else ''
        if n.startswith('n_'):
            k = r.random()
            if k < .08:
                return r.randint(0, min(um, 70))
            if k < .3 and self.pool:
                v = r.choice(self.pool) + r.choice((-1, 0, 1, 1))
                if 0 <= v <= min(um, 600):
                    return v
            return r.randint(0, min(um, self.nmax))
        if self.pool and r.random() < .25:
            v = r.choice(self.pool) + r.choice((-1, 0, 0, 1))
            if 0 <= v <= um:
                return v
        k = r.random()
        if k < .4:
            return r.randint(0, min(um, 8))
        if k < .7:
            return r.randint(0, um) >> r.randint(0, max(1, s - 1))
        return r.randint(0, um)

    def f(self):
        r = self.rng
        if self.mode < .25:
            return float(r.randint(-3, 3))
        if self.mode < .5:
            return r.randint(-8, 8) / 4.0
        k = r.random()
        if k < .6:
            return r.uniform(-2, 2)
        if k < .8:
            return r.uniform(0, 1)
        if k < .9:
            return float(r.randint(-3, 3))
        return r.gauss(0, 10)

    def pos(self):
        r = self.rng
        if self.mode < .25:
            return float(r.randint(1, 4))
        return r.uniform(0.05, 3)

    def indexed(self, name, idx, s):
        k = (name, idx)
        if k not in self.tab:
            kk = '%s[%s]' % (name, idx)
            v = self.hook(name, idx, self) if self.hook else None
            if kk in self.fixed and compatible(self.fixed[kk], v):
                v = self.fixed[kk]
            else:
                if v is None:
                    v = self.rand(s)
            self.tab[k] = v
            self.vals[kk] = v
        return self.tab[k]


def compatible(v, hv):
    """solver-proposed value v respects what the hook produces (positivity)"""
    return not (isinstance(hv, float) and hv > 0 and not v > 0)


def ev(x, gen):
    return t.evaluate(x, gen.env, gen)


class Buffers:
    """native copies of the world's objects under a valuation"""

    def __init__(self, w, gen):
        self.w, self.gen = w, gen
        self.bufs = {}
        self.keep = []

    def value_bytes(self, v, ty):
        if ty[0] == 'f':
            return struct.pack('<d' if ty[1] == 64 else '<f', v)
        n = max(1, ty[1] // 8)
        return (int(v) & ((1 << (8 * n)) - 1)).to_bytes(n, 'little')

    def get(self, o):
        if o in self.bufs:
            return self.bufs[o]
        w = self.w
        vd = None
        for nm, v in w.vecs.items():
            if v['arr'] is o:
                vd = (nm, v)
            elif v.get('back') is o:
                vd = (nm, dict(v, kind='back'))
        if vd is not None:
            nm, v = vd
            n = ev(v['n'], self.gen)
            if v['kind'] == 'ptr':
                b = ctypes.create_string_buffer(max(8 * n, 8))
                self.bufs[o] = b
                for i in range(n):
                    struct.pack_into('<Q', b, 8 * i, self.addr(v['back']) + v['sz'] * i)
            else:
                b = ctypes.create_string_buffer(max(v['sz'] * n, 8))
                self.bufs[o] = b
                for i in range(n):
                    for off, f in v['fields'].items():
                        if f[0] == 'p':
                            continue
                        val = ev(w.ex.log_default(o, t.bv(v['sz'] * i + off, 64), sortw(f), f), self.gen)
                        bb = self.value_bytes(val, f)
                        b[v['sz'] * i + off:v['sz'] * i + off + len(bb)] = bb
            return b
        b = ctypes.create_string_buffer(max(o.size, 8))
        self.bufs[o] = b
        offs = dict(o.fields or {})
        for off in o.init:
            if off not in offs:
                x = o.init[off]
                offs[off] = ir.PTR if not isinstance(x, t.T) else (ir.F64 if x.s == 'f' else ('i', x.s))
        for off in o.ptrs:
            offs[off] = ir.PTR
        if o.kind == 'undef' and not o.init:
            offs = {}
        for off, f in offs.items():
            if f[0] == 'p':
                p = o.init.get(off, o.ptrs.get(off))
                if isinstance(p, sx.Ptr):
                    a = 0 if p.o is sx.NULL else self.addr(p.o) + t.sgn(ev(p.off, self.gen), 64)
                    struct.pack_into('<Q', b, off, a)
                continue
            val = ev(w.ex.default(o, off, sortw(f), f), self.gen)
            bb = self.value_bytes(val, f)
            b[off:off + len(bb)] = bb
        return b

    def addr(self, o):
        return ctypes.addressof(self.get(o))

    def read(self, o, off, ty):
        b = self.get(o)
        n = sortw(ty)
        raw = bytes(b[off:off + n]) if off + n <= len(b) else ctypes.string_at(ctypes.addressof(b) + off, n)
        if ty[0] == 'f':
            return struct.unpack('<d' if ty[1] == 64 else '<f', raw)[0]
        return int.from_bytes(raw, 'little')


def close(a, b, rel=1e-9, scale=0.0):
    if a == b:
        return True
    if isinstance(a, float) or isinstance(b, float):
        a, b = float(a), float(b)
        if a != a and b != b:
            return True
        if a != a or b != b:
            return False
        if math.isinf(a) or math.isinf(b):
            return False
        return abs(a - b) <= rel * max(abs(a), abs(b), scale) + 1e-300
    return False


class Run:
    """one symbolic execution of a wrapper, and its native twin"""

    def __init__(self, w, native, fname, args, ret=None, contracts=None, globals_=None, solver=None, bind=None,
                 max_unroll=80, opaque=None):
        """args: list of sx.Ptr / Obj / terms.  ret: ir type or None"""
        self.w, self.native, self.fname, self.args, self.ret = w, native, fname, args, ret
        self.bind = bind          # callable(native, gen): set native globals
        self.ex = sx.Exec(w.m, contracts or {}, globals_ or {}, max_unroll=max_unroll, solver=solver)
        if opaque:
            self.ex.opaque_rx.append(opaque)
        a = [sx.Ptr(x, 0) if isinstance(x, sx.Obj) else x for x in args]
        self.pargs = a
        self._res = None
        self.wall = 0.0
        self.gs = set()           # global symbols mentioned in specifications

    def exec(self):
        """symbolic execution, once; an Unsupported outcome is remembered"""
        if self._res is None:
            t0 = time.time()
            st = sx.State({}, TRUE, {})
            f = self.w.m.fn('@' + self.fname)
            try:
                if f is None:
                    raise sx.Unsupported('no function ' + self.fname)
                self._res = self.ex.call(st, f.name, self.pargs)
            except (RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError) as e:
                self._res = sx.Unsupported('executor: %s: %s' % (type(e).__name__, e))
            except sx.Unsupported as e:
                self._res = e
            self.wall = time.time() - t0
        if isinstance(self._res, Exception):
            raise self._res
        return self._res

    @property
    def st(self):
        return self.exec()[0]

    @property
    def val(self):
        return self.exec()[1]

    def ok(self):
        try:
            self.exec()
            return True
        except sx.Unsupported:
            return False

    def mention(self, *terms):
        for y in t.walk(*[x for x in terms if isinstance(x, t.T)]):
            if y.op == 'sym' and str(y.d).startswith('g:'):
                self.gs.add(y)

    def cell(self, o, off, ty=ir.F64):
        """final value at o+off"""
        if isinstance(o, str):
            o = self.w.objs[o]
        return self.ex.load(self.st, sx.Ptr(o, off), ty)

    # ---------------------------------------------------------- native
    def call_native(self, gen):
        b = Buffers(self.w, gen)
        cargs = []
        for x in self.pargs:
            if isinstance(x, sx.Ptr):
                cargs.append(ctypes.c_void_p(b.addr(x.o) + t.sgn(ev(x.off, gen), 64)))
            elif x.s == 'f':
                cargs.append(ctypes.c_double(ev(x, gen)))
            elif x.s == 'b':
                cargs.append(ctypes.c_bool(ev(x, gen)))
            else:
                v = ev(x, gen)
                cargs.append({64: ctypes.c_uint64, 32: ctypes.c_uint32, 8: ctypes.c_uint8, 16: ctypes.c_uint16}[x.s](v))
        self.set_globals(gen)
        if self.bind:
            self.bind(self.native, gen)
        f = getattr(self.native.lib, self.fname)
        f.restype = None
        if self.ret is not None:
            if self.ret[0] == 'f':
                f.restype = ctypes.c_double
            else:
                f.restype = {64: ctypes.c_uint64, 32: ctypes.c_uint32, 8: ctypes.c_uint8, 1: ctypes.c_bool}[self.ret[1]]
        r = f(*cargs)
        if isinstance(r, bool):
            r = int(r)
        return r, b

    def set_globals(self, gen):
        todo = set(self.gs)
        if isinstance(self._res, tuple):
            for nm, o in self.ex.gobj.items():
                if o.const or o.init or o.size is None or o.size > 4096:
                    continue
                for off, f in (o.fields or {}).items():
                    if f[0] == 'p':
                        continue
                    ss = t.sym('g:%s+%d' % (nm[1:], off), sx.sort_of(f))
                    if ss in gen.env or self.used(ss):
                        todo.add(ss)
        for ss in todo:
            nm, off = str(ss.d)[2:].rsplit('+', 1)
            a = self.native.addr(nm)
            if a is None:
                continue
            v = ev(ss, gen)
            bb = Buffers.value_bytes(None, v, ir.F64 if ss.s == 'f' else ('i', 1 if ss.s == 'b' else ss.s))
            ctypes.memmove(a + int(off), bb, len(bb))

    def used(self, s):
        if not hasattr(self, '_used'):
            ts = []
            for o, os_ in self.st.mem.items():
                for sz, v in os_.cells.values():
                    if isinstance(v, t.T):
                        ts.append(v)
                for w_ in os_.log or []:
                    ts += [x for x in (w_.g, w_.off, w_.val, w_.n) if isinstance(x, t.T)]
            if isinstance(self.val, t.T):
                ts.append(self.val)
            ts += [c for o in self.ex.obligs for c in (o.g, o.cond)] + [g for g, _ in self.ex.asserts + self.ex.aborts]
            self._terms = ts
            self._used = set(x for x in t.walk(*ts) if x.op == 'sym')
        return s in self._used

    def pool(self):
        """integer constants the code compares with: candidate sizes and ids"""
        if not hasattr(self, '_pool'):
            self._pool = []
            if self.ok():
                self.used(None)
                self._pool = sorted({c.d for c in t.walk(*self._terms) if c.op in ('eq', 'ult', 'ule', 'slt', 'sle')
                                     for c in t.walk(*c.a) if c.c and isinstance(c.s, int) and 1 < c.d < 1 << 62})[:64]
        return self._pool

    def fpool(self):
        """real constants the code compares with"""
        if not hasattr(self, '_fpool'):
            self._fpool = []
            if self.ok():
                self.used(None)
                self._fpool = sorted({c.d for c in t.walk(*self._terms) if c.op in ('flt', 'fle', 'feq')
                                      for c in c.a if c.c and isinstance(c.d, float) and 1e-6 < abs(c.d) < 2e6})[:32]
        return self._fpool

    def outputs(self):
        """cells written in described objects: [(obj, off, ty, term)]"""
        r = []
        for o, os_ in self.st.mem.items():
            if o in self.w.objs.values() and not o.log:
                for off, (sz, v) in os_.cells.items():
                    if isinstance(v, t.T):
                        ty = ir.F64 if v.s == 'f' else ('i', sz * 8)
                        r.append((o, off, ty, v))
        return r

    def selftest(self, gen, outs=None):
        """native result vs evaluated symbolic result.  None or a description"""
        self.exec()
        for g, what in self.ex.aborts + self.ex.asserts:
            if ev(g, gen):
                return 'skip'
        r, b = self.call_native(gen)
        if isinstance(self.val, t.T) and self.ret is not None:
            v = ev(self.val, gen)
            if not close(r, int(v) if isinstance(v, bool) else v, 1e-9, 1e-9):
                return 'return value: native %r, executor %r' % (r, v)
        for o, off, ty, v in self.outputs():
            x = ev(v, gen)
            y = b.read(o, off, ty)
            if not close(x if not isinstance(x, bool) else int(x), y, 1e-7, 1e-7):
                return '%s+%d: native %r, executor %r' % (o.name, off, y, x)
        return None


# ------------------------------------------------------------------ isolation
def isolated(fn, timeout=120, mem=None):
    """run fn(note) in a child process; note(obj) remembers the input in use.
    returns ('ok', result) | ('died', signal/exit, last note) | ('timeout', last note)"""
    shm = mmap.mmap(-1, 1 << 20)
    r, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            dn = os.open(os.devnull, os.O_RDWR)
            os.dup2(dn, 1)
            os.dup2(dn, 2)

            def note(x):
                d = pickle.dumps(x)[:(1 << 20) - 8]
                shm[8:8 + len(d)] = d
                shm[0:8] = struct.pack('<Q', len(d))
            res = ('ok', fn(note))
        except BaseException as e:
            import traceback
            res = ('exc', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
        try:
            with os.fdopen(wfd, 'wb') as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(wfd)
    data = b''
    import select
    t0 = time.time()
    to = False
    while True:
        left = timeout - (time.time() - t0)
        if left <= 0:
            to = True
            break
        rl, _, _ = select.select([r], [], [], min(left, 1.0))
        if rl:
            c = os.read(r, 1 << 16)
            if not c:
                break
            data += c
    os.close(r)
    if to:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    n = struct.unpack('<Q', shm[0:8])[0]
    last = None
    if n:
        try:
            last = pickle.loads(shm[8:8 + n])
        except Exception:
            last = None
    if data:
        return pickle.loads(data)
    if to:
        return ('timeout', last)
    return ('died', status, last)
