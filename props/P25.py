"""totals and statistics reported about the particles of all processes"""
from hydrolib import *
import procs
from P16 import phys, gcell
from P30 import guarded, allreduce_n, comm

Z = t.fc(0.0)
TINY = t.fc(2.2250738585072014e-308)
HUGE = t.fc(1.7976931348623157e308)


def body(ck):
    ck.level = 'other'
    guarded(ck, 'totals', totals)
    guarded(ck, 'first outputs', first)
    X = procs.exes({d: ('report.cc', d, ()) for d in (1, 2, 3)})
    s0, k = (ck.seed - 1) * 100000, 4 if ck.thorough else 1
    procs.sweep(ck, 'lines of the report files, 1 to 5 processes',
                [('%dD, %d processes' % (d, np), X[d], [s0 + 1000 * np + d, 60 * k, 'report'], np) for np in (1, 2, 3, 5) for d in (1, 2, 3)],
                'generated inputs: 3 to 42 particles of both types, six output times each, schedules by time and by iteration')


def reduction(ex, st, args, ins):
    """MPI_Allreduce of doubles or of 64-bit integers"""
    ty = args[3].o.name if isinstance(args[3], sx.Ptr) else repr(args[3])
    if 'int64' not in ty:
        return allreduce_n(ex, st, args, ins)
    op = [k for k in ('sum', 'min', 'max') if args[4].o.name.endswith('op_' + k)]
    if len(op) != 1 or not (args[2].c and args[2].d == 1) or 'world' not in args[5].o.name:
        raise sx.Unsupported('MPI_Allreduce')
    x = ex.load(st, args[1], ('i', 64))
    ex.store(st, args[1], t.uf('iall' + op[0], (x,), 64), ('i', 64))
    return t.bv(0, 32)


def regs():
    return {**mpiregs(), **{'iall' + k: lambda x: x for k in ('sum', 'min', 'max')}}


def totals(ck):
    ck.build([(d, 'totals.cc', d, ()) for d in (1, 2, 3)])
    ck.assume('machine arithmetic read as real arithmetic (totals)')
    ck.assume('MPI_Allreduce gives every process the reduction of the values of all processes')
    ck.assume('contract of the external potential: a function of the position')
    for D in (1, 2, 3):
        m = ck.mod(D)
        F = fields(m, D)
        nm = lambda s: '%dD %s' % (D, s)
        half_ = t.fc(.5)

        def start(fn, ret=None, out=0, args=()):
            H = Hydro(ck, m, ck.nat(D), D, F)
            H.remote, H.ext = REMOTE, True
            bs = H.w.vec('bs', BODY)
            o = [H.w.out('o', out)] if out else []
            run = H.run(fn, [bs] + list(args) + o, ret)
            run.ex.contracts.update({'@MPI_Allreduce': reduction, '@MPI_Comm_rank': comm, '@MPI_Comm_size': comm})
            n = H.w.vecs['bs']['n']
            k = t.sym('kspec', 64, 2 ** 31 - 2)
            E = lambda f, i=None, ty=ir.F64: H.w.elem('bs', k, F[f] if i is None else F[f][i], ty)

            def tot(x, cond=None):
                c = t.eq(E('type', ty=('i', 32)), t.bv(0, 32))
                return t.sum_(Z, n, t.ite(c, x, Z), k)

            def hook(name, idx, g):
                if name == 'bs.%d' % F['type']:
                    return g.rng.choice([0, 0, 1])
                if name == 'bs.%d' % F['neighbors']:
                    return g.rng.randint(0, 300)
                if name == 'N':
                    return g.rng.randint(1, 9)
                if re.search('formulation|enable_fmm|evolve', name):
                    return g.rng.choice([0, 1])
                return None
            return H, run, n, k, E, tot, hook, (o[0] if o else None)

        def all_(kind, x):
            return t.uf('all' + kind, (x,), 'f')

        def ob(name, s, where, spec, pre=(), n=200):
            H, run, *_, hook, o = s
            rg = {**H.regs(), **regs()}
            ck.equal_ob(nm(name), run, where, spec, pre=pre, hook=hook, regs=rg, n=n)
        v2 = lambda E: dot([E('vel', i) for i in range(D)], [E('vel', i) for i in range(D)])
        # ---- conserved quantities
        s = start('w_mass', ir.F64)
        ob('total mass is the sum over the normal particles', s, 'ret', all_('sum', s[5](s[4]('mass'))))
        s = start('w_ekin', ir.F64)
        ob('total kinetic energy', s, 'ret', all_('sum', s[5](t.fmul(half_, t.fmul(s[4]('mass'), v2(s[4]))))))
        s = start('w_eint', ir.F64)
        ob('total internal energy', s, 'ret', all_('sum', s[5](t.fmul(s[4]('mass'), s[4]('eint')))))
        s = start('w_egrav', ir.F64)
        ob('total gravitational energy', s, 'ret', all_('sum', t.fmul(half_, s[5](t.fmul(s[4]('mass'), s[4]('gpot'))))))
        s = start('w_mom', None, 8 * D)
        for i in range(D):
            ob('total momentum, component %d' % i, s, (s[-1], 8 * i), all_('sum', s[5](t.fmul(s[4]('mass'), s[4]('vel', i)))))
        if D > 1:
            s = start('w_ang', None, 8 * D)
            x = lambda i, j: t.fsub(t.fmul(s[4]('pos', i), s[4]('vel', j)), t.fmul(s[4]('pos', j), s[4]('vel', i)))
            comps = [x(0, 1)] if D == 2 else [x(1, 2), x(2, 0), x(0, 1)]
            for i, c in enumerate(comps):
                ob('total angular momentum, component %d' % i, s, (s[-1], 8 * i), all_('sum', s[5](t.fmul(s[4]('mass'), c))))
        s = start('w_energy', ir.F64)
        E = s[4]
        tk, fmm = param(m, 'thermokinetic_formulation', 8), param(m, 'enable_fmm', 8)
        phi = t.uf('PHI', [E('pos', i) for i in range(D)], 'f')
        S = lambda x: s[5](t.fmul(E('mass'), x))
        for a in (0, 1):
            e0 = S(E('etot') if a else t.fadd(t.fadd(t.fmul(half_, v2(E)), E('eint')), phi))
            for b in (0, 1):
                e1 = t.fadd(e0, S(t.fmul(half_, E('gpot')))) if b else e0
                pick = lambda name, idx, g, h=s[6], a=a, b=b: a if name == str(tk.d) else b if name == str(fmm.d) else h(name, idx, g)
                ob('total energy is %s%s' % ('the stored total energy' if a else 'internal, kinetic and external energy', ' and half the gravitational energy' if b else ''),
                   s[:6] + (pick, s[7]), 'ret', all_('sum', e1), [t.eq(tk, t.bv(a, 8)), t.eq(fmm, t.bv(b, 8))])
        # ---- statistics
        N = t.sym('N', 64, 2 ** 40)
        one = t.bv(1, 64)

        def extreme(kind, init, x, n, k):
            acc = t.sym('aspec', 'f')
            c = t.flt(acc, x) if kind == 'max' else t.flt(x, acc)
            return all_(kind, t.fold_(init, n, t.ite(c, x, acc), k, acc))
        for fn, what, val in (('w_hstat', 'smoothing length', lambda E: E('radius')), ('w_vstat', 'speed', lambda E: norm([E('vel', i) for i in range(D)]))):
            s = start(fn, None, 24, [N])
            H, run, n, k, E, tot, hook, o = s
            x = val(E)
            pre = [t.ult(t.bv(0, 64), N), t.ult(N, t.bv(2 ** 40, 64))]
            ob('smallest %s of all particles' % what, s, (o, 0), extreme('min', HUGE, x, n, k), pre)
            ob('largest %s of all particles' % what, s, (o, 8), extreme('max', TINY, x, n, k), pre)
            ob('average %s of all particles' % what, s, (o, 16), t.fdiv(all_('sum', t.sum_(Z, n, x, k)), t.sitofp(N)), pre)
        s = start('w_nstat', None, 24, [N])
        H, run, n, k, E, tot, hook, o = s
        nb = E('neighbors', ty=('i', 64))
        acc = t.sym('aspec', 64)
        e0 = H.w.elem('bs', t.bv(0, 64), F['neighbors'], ('i', 64))
        pre = [t.ult(t.bv(0, 64), n), t.ult(t.bv(0, 64), N)]
        I64 = ('i', 64)
        fold = lambda c: t.fold_(e0, n, t.ite(c, nb, acc), k, acc)
        ob('smallest number of neighbours', s, (o, 0, I64), t.uf('iallmin', (fold(t.ult(nb, acc)),), 64), pre)
        ob('largest number of neighbours', s, (o, 8, I64), t.uf('iallmax', (fold(t.ult(acc, nb)),), 64), pre)
        ob('average number of neighbours, rounded down', s, (o, 16, I64),
           t.udiv(t.uf('iallsum', (t.fold_(t.bv(0, 64), n, t.add(acc, nb), k, acc),), 64), N), pre)


def first(ck):
    """a run starts at its initial iteration, time and step, and every scheduled output is due"""
    ck.build([(1, 'totals.cc', 1, ())])
    m, nat = ck.mod(1), ck.nat(1)
    H = Hydro(ck, m, nat, 1)
    H.w.out('o', 8)
    run = Run(H.w, nat, 'w_start', [], None, {}, {}, bind=H.bind)
    cell = lambda s: gcell(m, r'^@_ZN7physicsL?\d+%sE$' % s)
    ti, d0, it = param(m, 'initial_time'), param(m, 'initial_dt'), param(m, 'initial_iteration', 64)
    t0 = ti
    names = ('screen', 'scalar', 'h5data')
    ods = [param(m, 'out_%s_dt' % s) for s in names]
    old = [phys(m, 't_%s_output' % s) for s in names]

    def hk(name, idx, g):
        if name == str(ti.d):
            return g.rng.choice([0.0, 0.0, 1.0, .75, 2.5, 3.0, 50.0])
        if name in [str(o.d) for o in ods]:
            return g.rng.choice([-1.0, 0.0, .25, 1.0, 10.0])
        return None
    pre = [t.fle(Z, t0)]
    facts = []
    for o in ods:
        q = t.fdiv(t0, o)
        facts.append(t.or_(t.flt(q, Z), t.fle(t.sitofp(t.fptosi(q, 64)), q)))
    at = lambda s, ty=ir.F64: ('global', cell(s), ty)
    ck.assume('a number cut to an integer is not larger than the number when that is not negative')
    for s, v in (('totaltime', t0), ('dt', d0)):
        ck.equal_ob('a run starts with its initial %s' % s, run, at(s), v, pre, hk)
    ck.equal_ob('a run starts with its initial iteration', run, at('iteration', ('i', 64)), it, pre, hk)
    for s, o, x in zip(names, ods, old):
        ck.valid_ob('a %s output by time is due at the start' % s, run, [at('t_%s_output' % s)],
                    lambda v, o=o, x=x: t.ite(t.flt(Z, o), t.feq(v, t0), t.feq(v, x)), pre, hk, facts=facts)


if __name__ == '__main__':
    main('P25', body)
