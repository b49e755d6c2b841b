"""shared world of the particle routines"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import ctypes, re
import sx, ir, real
import term as t
from runner import *

BODY = '%class.body_u'
KPTR = '@_ZN7kernels19sph_kernel_functionE'
GPTR = '@_ZN7kernels19sph_kernel_gradientE'
VPTR = '@_ZN9viscosity24sph_artificial_viscosityE'


SC = ['mass', 'radius', 'density', 'pressure', 'soundspeed', 'eint', 'etot', 'dudt', 'dedt', 'dt', 'alpha', 'divv', 'ddivvdt',
      'vsig', 'gpot', 'adiabatic', 'dadt', 'entropy', 'pmin', 'temperature', 'ye', 'xi', 'trigger', 'tracess', 'gradv']
VC = ['pos', 'vel', 'v12', 'acc', 'gacc']


def fields(m, D):
    """field name -> byte offset, read off the accessors"""
    F = {}
    w = World(m)
    P = w.obj('P', BODY)
    inv = {}
    for off, f in P.fields.items():
        if f[0] != 'p':
            inv[w.get(P, off, f)] = off
    for n in SC + ['id', 'type', 'state', 'neighbors', 'key']:
        fn = m.fn('@g_' + n)
        if fn is None:
            continue
        ex = sx.Exec(m)
        st, v = ex.call(sx.State({}, t.TRUE, {}), '@g_' + n, [sx.Ptr(P, 0)])
        v = t.strip_ext(v) if v.s != 'f' else v
        if v not in inv:
            raise sx.Unsupported('accessor %s does not read one field' % n)
        F[n] = inv[v]
    for n in VC:
        if m.fn('@g_' + n) is None:
            continue
        o = w.out('o', 8 * D)
        ex = sx.Exec(m)
        st, v = ex.call(sx.State({}, t.TRUE, {}), '@g_' + n, [sx.Ptr(P, 0), sx.Ptr(o, 0)])
        F[n] = [inv[ex.load(st, sx.Ptr(o, 8 * i), ir.F64)] for i in range(D)]
    return F


class Hydro:
    """particle P with a vector of neighbours nb of any length"""

    def __init__(self, ck, m, nat, D, F=None, self_nb=False):
        self.ck, self.m, self.nat, self.D = ck, m, nat, D
        self.F = F or fields(m, D)
        self.w = World(m)
        self.P = self.w.obj('P', BODY)
        self.nb = self.w.vec_ptr('nb', BODY)
        self.n = self.w.vecs['nb']['n']
        self.k = t.sym('kspec', 64, 2 ** 31 - 2)
        self.libc = {}

    # symbolic field reads
    def p(self, f, i=None):
        off = self.F[f] if i is None else self.F[f][i]
        return self.w.get(self.P, off)

    def b(self, f, i=None, k=None):
        off = self.F[f] if i is None else self.F[f][i]
        return self.w.elem('nb', self.k if k is None else k, off)

    def pv(self, f):
        return [self.p(f, i) for i in range(self.D)]

    def bv(self, f):
        return [self.b(f, i) for i in range(self.D)]

    def sum(self, body):
        return t.sum_(t.fc(0.0), self.n, body, self.k)

    def fold(self, init, body, acc):
        return t.fold_(init, self.n, body, self.k, acc)

    # contracts of the functions reached through the selected pointers
    def kern(self, ex, st, args, ins):
        return t.uf('W', [ex.load(st, a, ir.F64) for a in args], 'f')

    def grad(self, ex, st, args, ins):
        # point_t is returned through memory, or as (double) / (double,double)
        if ins.ty == ir.VOID:
            ret, r, h = args
        else:
            ret, (r, h) = None, args
        xs = [ex.load(st, r.add(8 * i), ir.F64) for i in range(self.D)] + [ex.load(st, h, ir.F64)]
        ks = [t.uf('K%d' % i, xs, 'f') for i in range(self.D)]
        if ret is not None:
            for i in range(self.D):
                ex.store(st, ret.add(8 * i), ks[i], ir.F64)
            return None
        ty = self.m.resolve(ins.ty)
        if ty[0] == 'f':
            return ks[0]
        if ty[0] == 'l':
            return tuple(ks)
        raise sx.Unsupported('gradient return type %r' % (ty,))

    def visc(self, ex, st, args, ins):
        return t.uf('VISC', args, 'f')

    ext = False
    remote = None

    def ret_point(self, ex, st, args, ins, ks):
        """return a point from a contract: through memory or in registers"""
        if ins.ty == ir.VOID:
            for i in range(self.D):
                ex.store(st, args[0].add(8 * i), ks[i], ir.F64)
            return None
        ty = self.m.resolve(ins.ty)
        return ks[0] if ty[0] == 'f' else tuple(ks)

    def c_extacc(self, ex, st, args, ins):
        b = args[1] if ins.ty == ir.VOID else args[0]
        xs = [ex.load(st, b.add(self.F['pos'][i]), ir.F64) for i in range(self.D)]
        return self.ret_point(ex, st, args, ins, [t.uf('AX%d' % i, xs, 'f') for i in range(self.D)])

    def c_extpot(self, ex, st, args, ins):
        return t.uf('PHI', [ex.load(st, args[0].add(8 * i), ir.F64) for i in range(self.D)], 'f')

    def contracts(self):
        if self.ext:
            return {'@KERN': self.kern, '@GRAD': self.grad, '@VISC': self.visc,
                    '@EXTA': self.c_extacc, '@EXTP': self.c_extpot}
        return {'@KERN': self.kern, '@GRAD': self.grad, '@VISC': self.visc}

    def globals(self):
        if self.ext:
            d = dict(Hydro.globals_(self))
            for k, f in (('17vec_accelerations', '@EXTA'), ('14vec_potentials', '@EXTP')):
                arr = sx.Obj('ext' + f, 8, 'input', ptrs={0: sx.Fn(f)})
                k = '@_ZN14external_forceL%sE' % k
                d[k] = {0: sx.Ptr(arr, 0), 8: sx.Ptr(arr, 8), 16: sx.Ptr(arr, 8)}
            return d
        return self.globals_()

    def globals_(self):
        return {KPTR: {0: sx.Fn('@KERN')}, GPTR: {0: sx.Fn('@GRAD')}, VPTR: {0: sx.Fn('@VISC')},
                '@_ZN14external_forceL17vec_accelerationsE': {0: sx.NULLP, 8: sx.NULLP, 16: sx.NULLP},
                '@_ZN14external_forceL14vec_potentialsE': {0: sx.NULLP, 8: sx.NULLP, 16: sx.NULLP}}

    def run(self, fn, args=None, ret=None, **kw):
        return Run(self.w, self.nat, fn, args or [self.P, self.nb], ret, self.contracts(), self.globals(),
                   bind=self.bind, **kw)

    # native side: the test functions of hydro.cc (same formulas as _W, _K, _V)
    def bind(self, nat, gen):
        nat.lib.t_bind()
        nat.lib.t_ext(1 if self.ext else 0)
        if hasattr(nat.lib, 't_remote'):
            nat.lib.t_remote(1 if self.remote is not None else 0, ctypes.c_double(self.remote or 0.0))

    def regs(self):
        r = {'W': lambda r, h: _W(r, h), 'VISC': lambda *a: _V(*a)}
        for i in range(self.D):
            r['K%d' % i] = (lambda i: lambda *a: _K(list(a[:-1]), a[-1])[i])(i)
            r['AX%d' % i] = (lambda i: lambda *a: 0.5 + 0.25 * i - 0.7 * a[i])(i)
        r['PHI'] = lambda *a: 0.3 + sum(0.35 * x * x - 0.1 * x for x in a)
        return r

    def hook(self, positive=('mass', 'radius', 'density', 'soundspeed', 'pressure')):
        F, D = self.F, self.D
        offs = {F[f] for f in positive}

        def h(name, idx, gen):
            if name.startswith('P+') and name[2:].isdigit() and int(name[2:]) in offs:
                return gen.pos()
            if name.startswith('nb.') and int(name[3:]) in offs:
                return gen.pos()
            return None
        return h

    # contract of the kernel gradient: K_i(x,h) = x_i k(|x|^2, h)
    def radial(self, name, args, ctx):
        if name.startswith('K') and name[1:].isdigit():
            i = int(name[1:])
            x, h = args[:-1], args[-1]
            r2 = real.Rat({})
            for a in x:
                r2 = ctx.add(r2, ctx.mul(a, a))
            key = ('uf', 'k', r2.key(), h.key())
            return ctx.mul(x[i], ctx.ratom(key, None))
        if name == 'VISC':
            return None
        return None

    def ctx(self, **kw):
        return real.Ctx(uf_rewrite=self.radial, **kw)


def _W(r, h):
    q = abs(r / h) if h else 0.0
    return 1.0 / (1 + q * q) + 0.1


def _K(x, h):
    r2 = sum(a * a for a in x)
    k = -1.0 / (1.0 + r2 + h * h)
    return [a * k for a in x]


def _V(a, r, c, m):
    return 0.3 * a + 0.2 * c - 0.7 * m + 0.1 * r


def gsym(m, rx, sort='f'):
    """symbol of the initial value of the global variable matching rx"""
    c = [n for n in m.globals if re.search(rx, n)]
    if len(c) != 1:
        raise sx.Unsupported('global %s: %s' % (rx, c))
    return t.sym('g:%s+0' % c[0][1:], sort)


def param(m, name, sort='f'):
    """run-time parameter (the storage behind the const reference)"""
    return gsym(m, r'^@_ZN5paramL?\d+_%sE$' % name, sort)


def dot(a, b):
    r = t.fc(0.0)
    for x, y in zip(a, b):
        r = t.fadd(r, t.fmul(x, y))
    return r


def vsub(a, b):
    return [t.fsub(x, y) for x, y in zip(a, b)]


def norm(a):
    if len(a) == 1:
        return t.fn("fabs", a[0])
    return t.fn('sqrt', dot(a, a))


def half(a, b):
    return t.fmul(t.fc(.5), t.fadd(a, b))


def frame_ob(ck, name, run, P, allowed, hook=None, pre=(), regs=None, nb=None, n=150, globals_ok=None):
    """obligation: the call changes nothing of P but the allowed byte offsets,
    and nothing of the neighbours"""
    offs = [(o, f) for o, f in P.fields.items() if f[0] != 'p' and o not in allowed]

    def proof():
        ck.tested(run, 20, hook=hook, pre=pre, regs=regs)
        for o, f in offs:
            if run.cell(P, o, f) is not run.w.get(P, o, f):
                return False, 'field at byte %d is changed' % o
        ours = set(run.w.objs.values()) | {v['arr'] for v in run.w.vecs.values()} | {v.get('back') for v in run.w.vecs.values()}
        for o, os_ in run.st.mem.items():
            if o is P:
                continue
            if o in ours and o.kind != 'undef' and (os_.cells or os_.log):
                return False, 'writes to %s' % o.name
            if o.name.startswith('g:') and os_.cells and not (globals_ok and re.search(globals_ok, o.name)):
                return False, 'writes to global %s' % o.name
        return True

    def judge(r, b, g):
        for o, f in offs:
            v, w = b.read(P, o, f), ev(run.w.get(P, o, f), g)
            if f[0] != 'f':
                w = int(w) & ((1 << (8 * sortw(f))) - 1)
            if v != w and not (v != v and w != w):
                return dict(changed_byte_offset=o, before=w, after=v)
        for nm, v in run.w.vecs.items():
            if v['kind'] != 'ptr':
                continue
            for i in range(ev(v['n'], g)):
                for o, f in v['fields'].items():
                    if f[0] == 'p':
                        continue
                    x, y = b.read(v['back'], v['sz'] * i + o, f), ev(run.w.elem(nm, t.bv(i, 64), o, f), g)
                    if f[0] != 'f':
                        y = int(y) & ((1 << (8 * sortw(f))) - 1)
                    if x != y and not (x != x and y != y):
                        return dict(changed_neighbour=i, byte_offset=o, before=y, after=x)
        return None
    ck.ob(name, proof, lambda: ck.sample(run, judge, hook, pre, n, 4, regs))


from world import sortw


class VecOb:
    """obligations about an arbitrary element j of a std::vector of particles"""

    def __init__(self, ck, H, run, name='bs', hook=None, pre=(), regs=None, positive=()):
        self.ck, self.H, self.run, self.regs = ck, H, run, regs
        v = H.w.vecs[name]
        self.name, self.arr, self.sz, self.n, self.flds = name, v.get('back') or v['arr'], v['sz'], v['n'], v['fields']
        pfx = name + '.' if 'back' in v else name + '[]+'
        self.j = t.sym('j', 64, 2 ** 31 - 2)
        self.pre = [t.ult(self.j, self.n)] + list(pre)
        pos = {H.F[f] for f in positive}

        def base(nm, idx, g):
            if nm.startswith(pfx) and int(nm[len(pfx):]) in pos:
                return g.pos()
            return hook(nm, idx, g) if hook else None

        def jh(nm, idx, g):
            if nm == 'j':
                nn = g.env['*'](self.n)
                return g.rng.randrange(nn) if nn else 0
            return base(nm, idx, g)
        self.base, self.hook = base, jh
        self.facts = self.pre + [t.flt(t.fc(0.0), self.E(f)) for f in positive]

    def off(self, f, i=None):
        F = self.H.F
        return F[f] if i is None else F[f][i]

    def E(self, f, i=None, k=None):
        return self.H.w.elem(self.name, self.j if k is None else k, self.off(f, i))

    def at(self, off, ty=ir.F64):
        return self.run.ex.load(self.run.st, sx.Ptr(self.arr, t.add(t.mul(t.bv(self.sz, 64), self.j), t.bv(off, 64))), ty)

    def rd(self, r, b, g, off, ty=ir.F64):
        return b.read(self.arr, self.sz * ev(self.j, g) + off, ty)

    def default(self, off, ty):
        return self.run.ex.log_default(self.arr, t.add(t.mul(t.bv(self.sz, 64), self.j), t.bv(off, 64)), sortw(ty), ty)

    def equal(self, name, f, spec, i=None, ctx=real.Ctx, n=200, rel=1e-9, scale=1e-9, facts=(), init=None):
        """field f of element j ends up as spec"""
        ck, run, off = self.ck, self.run, self.off(f, i)
        res = {}
        facts = self.facts + list(facts)

        def proof():
            ck.tested(run, 20, hook=self.base, regs=self.regs)
            c = res['c'] = ctx()
            v = self.at(off)
            r = c.equal(v, spec, facts)
            if r is False:
                w = c.why
                res['cex'] = ck.confirm(v, spec, facts, self.hook, self.regs, guides=c.guide)
                return False, 'differs: %s' % [t.show(x, 4)[:300] if isinstance(x, t.T) else 0 for x in (w or ())]
            return r

        def judge(r, b, g):
            got, want = self.rd(r, b, g, off), ev(spec, g)
            if not close(got, want, rel, scale):
                return dict(element=ev(self.j, g), observed=got, specified=want)
        ck.ob(name, proof, lambda: with_cex(res, ck.sample(run, judge, self.hook, self.pre, n, 4, self.regs, None, [spec])))

    def frame(self, name, allowed, n=100):
        ck, run = self.ck, self.run
        offs = [(o, f) for o, f in self.flds.items() if f[0] != 'p' and o not in allowed]

        def proof():
            ck.tested(run, 20, hook=self.base, regs=self.regs)
            for o, f in offs:
                a, b0 = self.at(o, f), self.default(o, f)
                if a is not b0:
                    r = smt.valid(t.implies(self.pre[0], t.eq(a, b0)), []) if a.s != 'f' else \
                        real.Ctx().equal(a, b0, self.facts)
                    if r is not True:
                        return r, 'byte %d changes' % o
            return True

        def judge(r, b, g):
            for o, f in offs:
                a = self.rd(r, b, g, o, f)
                b0 = ev(self.default(o, f), g)
                if f[0] != 'f':
                    b0 = int(b0) & ((1 << (8 * sortw(f))) - 1)
                if a != b0:
                    return dict(element=ev(self.j, g), byte=o, before=b0, after=a)
        ck.ob(name, proof, lambda: ck.sample(run, judge, self.hook, self.pre, n, 4, self.regs))


def allreduce(kind):
    """contract of MPI_Allreduce(IN_PLACE, one double, MPI_DOUBLE, op, WORLD): an
    unknown function of the local value per operation (the identity on one process)"""
    names = {'sum': 'allsum', 'min': 'allmin', 'max': 'allmax'}

    def h(ex, st, args, ins):
        n = args[2]
        if not (n.c and n.d == 1):
            raise sx.Unsupported('MPI_Allreduce of %r values' % (n,))
        g = [a.o.name if isinstance(a, sx.Ptr) and isinstance(a.o, sx.Obj) else repr(a) for a in args[3:6]]
        if 'double' not in g[0] or 'world' not in g[2]:
            raise sx.Unsupported('MPI_Allreduce of %s over %s' % (g[0], g[2]))
        op = [v for k, v in names.items() if g[1].endswith('op_' + k)]
        if len(op) != 1:
            raise sx.Unsupported('MPI_Allreduce operation %s' % g[1])
        x = ex.load(st, args[1], ir.F64)
        ex.store(st, args[1], t.uf(op[0], (x,), 'f'), ir.F64)
        return t.bv(0, 32)
    return h


def abstract(repl=None, squares=True):
    """sound weakening for the solver: squares become arbitrary non-negative
    numbers, the listed terms arbitrary numbers with the given facts.
    repl: [(term, name, [fact builder])]"""
    def go(ts):
        facts, m = [], {}
        for x, name, fb in repl or ():
            s = t.sym(name, x.s)
            m[x] = s
            facts += [f(s) for f in fb]
        if m:
            ts = [t.subst(x, m) for x in ts]
        if squares:
            sq = {}
            for y in t.walk(*ts):
                if y.op == 'fmul' and y.a[0] is y.a[1] and y.a[0].op not in ('sym', 'c'):
                    if y not in sq:
                        s = sq[y] = t.sym('#sq%d' % len(sq), 'f')
                        facts.append(t.fle(t.fc(0.0), s))
                        if sum(1 for _ in t.walk(y)) < 25:
                            facts.append(t.or_(t.feq(y.a[0], t.fc(0.0)), t.flt(t.fc(0.0), s)))
            # largest first
            for y in sorted(sq, key=lambda y: -y.id):
                ts = [t.subst(x, {y: sq[y]}) for x in ts]
        return ts, facts
    return go


def vsig_spec(H):
    """max(0, max_b (max(c_a,c_b) - min(0, v_ab.n_ab)))"""
    D = H.D
    x = vsub(H.pv('pos'), H.bv('pos'))
    r = norm(x)
    vn = dot(vsub(H.pv('vel'), H.bv('vel')), [t.fdiv(y, r) for y in x])
    ca, cb = H.p('soundspeed'), H.b('soundspeed')
    c = t.ite(t.flt(ca, cb), cb, ca)
    term = t.fsub(c, t.ite(t.flt(t.fc(0.0), vn), t.fc(0.0), vn))
    acc = t.sym('accspec', 'f')
    return H.fold(t.fc(0.0), t.ite(t.flt(acc, term), term, acc), acc), term


REMOTE = .37


def mpiregs():
    """native meaning of the reductions: one other process contributing REMOTE"""
    return {'allsum': lambda x: x + REMOTE, 'allmin': lambda x: min(x, REMOTE), 'allmax': lambda x: max(x, REMOTE)}


def named(repl, ops=('fdiv', 'fn', 'fadd', 'fmul')):
    """sound generalisation: every sub-term equal (as a normal form) to a listed
    one becomes a symbol.  repl: [(term, name, [fact builder])]"""
    def go(ts):
        c = real.Ctx()
        facts = []
        for x, name, fb in repl:
            s = t.sym(name, x.s)
            key = c.norm(c.prep(x)).key()
            mm = {}
            for y in t.walk(*ts):
                if y.s == 'f' and y.op in ops and (y is x or c.norm(c.prep(y)).key() == key):
                    mm[y] = s
            ts = [t.subst(z, mm) for z in ts]
            facts += [f(s) for f in fb]
        return ts, facts
    return go


def first_calls(m):
    """initial state in which no function-local static has been set up yet"""
    return {g: {0: t.bv(0, 64)} for g in m.globals if g.startswith('@_ZGV')}


def reset_statics(m):
    gs = [g[1:] for g in m.globals if g.startswith('@_ZGV')]

    def bind(nat, gen):
        for g in gs:
            a = nat.addr(g)
            if a is not None:
                ctypes.memset(a, 0, 8)
    return bind
