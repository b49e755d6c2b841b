"""signal speed, stable time step, adaptive global step, clock and termination"""
from hydrolib import *
from P13 import positive

Z = t.fc(0.0)


def phys(m, n, sort='f'):
    return gsym(m, r'^@_ZN7physicsL?\d+%sE$' % n, sort)


def tmin(a, b):
    return t.ite(t.flt(a, b), a, b)


def gcell(m, rx, ty=ir.F64):
    """final value of a global"""
    c = [n for n in m.globals if re.search(rx, n)]
    if len(c) != 1:
        raise sx.Unsupported('global %s' % rx)
    return c[0]


def body(ck):
    ck.build([((d, 'h'), 'hydro.cc', d, ()) for d in (1, 2, 3)])
    ck.assume('machine arithmetic read as real arithmetic, except that 0/0 is the IEEE not-a-number in the signal speed')
    ck.assume('contract of the external potential: a function of the position; of MPI_Allreduce(MIN): a positive number not above the local value')
    for D in (1, 2, 3):
        m, nat = ck.mod((D, 'h')), ck.nat((D, 'h'))
        F = fields(m, D)
        nm = lambda s: '%dD %s' % (D, s)
        # ---- signal speed
        H = Hydro(ck, m, nat, D, F)
        run = H.run('w_signalspeed')
        vs, term = vsig_spec(H)
        same = t.and_(*[t.feq(x, y) for x, y in zip(H.pv('pos'), H.bv('pos'))])
        acc = t.sym('accspec', 'f')
        spec = H.fold(Z, t.ite(same, acc, t.ite(t.flt(acc, term), term, acc)), acc)

        def lift(v):
            n, v2 = real.nanlift(v)
            if n is not t.FALSE and real.Ctx().valid_split(t.not_(n), [], 10000) is not True:
                raise real.Unknown('result may be NaN')
            return v2
        ck.equal_ob(nm('signal speed = max over neighbours elsewhere of max(c_a,c_b) - min(0, v_ab.n_ab), at least 0'), run, (H.P, F['vsig']),
                    spec, [], H.hook(), H.regs(), real.Ctx, rel=1e-9, scale=1e-9, nmax=6, adapt=lift)
        frame_ob(ck, nm('computing the signal speed changes nothing else'), run, H.P, [F['vsig']], H.hook(), [], H.regs())
        # ---- stable step of one particle
        H = Hydro(ck, m, nat, D, F)
        H.ext = True
        run = H.run('w_compute_dt', [H.P])
        eta, wid = param(m, 'sph_eta'), gsym(m, r'^@_ZN7kernelsL12kernel_widthE$')
        cfl, al = param(m, 'timestep_cfl_factor'), param(m, 'sph_viscosity_alpha')
        ev_, tk = param(m, 'evolve_internal_energy', 8), param(m, 'thermokinetic_formulation', 8)
        tiny = t.fc(1e-24)
        dx = t.fdiv(H.p('radius'), t.fmul(eta, wid))
        dtv = t.fdiv(dx, t.fadd(norm(H.pv('vel')), tiny))
        dta = t.fn('sqrt', t.fdiv(dx, t.fadd(norm([t.fadd(a, b) for a, b in zip(H.pv('acc'), H.pv('gacc'))]), tiny)))
        dtc = t.fdiv(dx, t.fadd(tiny, t.fmul(H.p('vsig'), t.fadd(t.fc(1.0), t.fmul(t.fc(.6), al)))))
        stable = t.fmul(cfl, tmin(tmin(dtv, dta), dtc))
        plain = t.or_(t.eq(ev_, t.bv(0, 8)), t.eq(tk, t.bv(0, 8)))
        flags = [t.or_(t.eq(x, t.bv(0, 8)), t.eq(x, t.bv(1, 8))) for x in (ev_, tk)]
        pos = [t.flt(Z, x) for x in (H.p('radius'), eta, wid, cfl)] + [t.fle(Z, al), t.fle(Z, H.p('vsig')), t.flt(Z, H.p('eint'))] + flags

        def hk(name, idx, g, base=H.hook()):
            if name in (str(ev_.d), str(tk.d)):
                return g.rng.choice([0, 1])
            if name in [str(x.d) for x in (eta, wid, cfl, al)] or name in ('P+%d' % F['vsig'], 'P+%d' % F['eint']):
                return g.pos()
            return base(name, idx, g)

        posf = [lambda s: t.flt(Z, s)]
        crit = [(dtv, '#dtv', posf), (dta, '#dta', posf), (dtc, '#dtc', posf)]
        ck.equal_ob(nm('time step = cfl * min of the velocity, acceleration and signal-speed criteria'), run, (H.P, F['dt']), stable,
                    pos + [plain], hk, H.regs(), real.Ctx, rel=1e-9, scale=0, abst=named(crit))
        phi = lambda xs: t.uf('PHI', xs, 'f')
        xv = list(zip(H.pv('pos'), H.pv('vel')))

        def energy(dt, k=1.0):
            d = t.fsub(phi([t.fadd(x, t.fmul(dt, v)) for x, v in xv]), phi(H.pv('pos')))
            return t.flt(t.fsub(d, t.fmul(dt, dot(H.pv('vel'), H.pv('gacc')))), t.fmul(t.fc(.5 * k), H.p('eint')))
        thermo_ob(ck, nm('with total-energy evolution the potential energy taken up in one step stays below half the internal energy, and the step is no longer than the stable one'),
                  H, run, stable, energy, pos + [t.not_(plain)], hk, crit)
        frame_ob(ck, nm('computing the time step changes nothing else'), run, H.P, [F['dt']], hk, pos, H.regs())
    # ---- the global step, clock, termination: independent of the dimension
    D = 1
    m, nat = ck.mod((D, 'h')), ck.nat((D, 'h'))
    F = fields(m, D)
    H = Hydro(ck, m, nat, D, F)
    H.remote = REMOTE
    bs = H.w.vec('bs', BODY)
    run = H.run('w_adaptive', [bs])
    run.ex.contracts['@MPI_Allreduce'] = allreduce('allmin')
    dt, tt, nx, sv = (phys(m, s) for s in ('dt', 'totaltime', 'totaltime_next', 'dt_saved'))
    outs = [phys(m, 't_%s_output' % s) for s in ('screen', 'scalar', 'h5data')]
    ods = [param(m, 'out_%s_dt' % s) for s in ('screen', 'scalar', 'h5data')]
    glob = {s: gcell(m, r'^@_ZN7physicsL?\d+%sE$' % s) for s in ('dt', 'totaltime', 'totaltime_next', 'iteration') + tuple(
        't_%s_output' % s for s in ('screen', 'scalar', 'h5data'))}
    V = H.w.vecs['bs']
    k, a = t.sym('kspec', 64, 2 ** 31 - 2), t.sym('accspec', 'f')
    d_k = H.w.elem('bs', k, F['dt'])
    loc = t.fold_(t.fc(1e24), V['n'], t.ite(t.flt(d_k, a), d_k, a), k, a)
    small = t.uf('allmin', (loc,), 'f')
    pre = [t.flt(Z, dt), t.flt(Z, small), t.fle(small, loc)]
    pre += [t.or_(t.fle(o, Z), t.fle(tt, x)) for o, x in zip(ods, outs)]
    names = {str(x.d): x for x in [dt, tt, nx, sv] + outs + ods}

    def hk(name, idx, g):
        if name.startswith('bs[]+') and int(name[5:]) == F['dt']:
            return 2.0 ** g.rng.randint(-8, 0) * g.rng.choice([.1, .3])
        if name == str(dt.d):
            return 2.0 ** g.rng.randint(-8, 0) * g.rng.choice([.1, .3])
        if name == str(sv.d):
            return g.rng.choice([0.0, 1.0, .01, .3])
        if name == str(tt.d):
            return float(g.rng.randint(0, 8)) * .25
        if name in [str(o.d) for o in ods]:
            return g.rng.choice([-1.0, 0.0, .03, .25, 1.0, 10.0])
        if name in [str(o.d) for o in outs]:
            return g.env['*'](tt) + g.rng.choice([0.0, 0.0, .001, .1, .5, 2.0])
        return None
    new = tmin(small, t.fdiv(dt, t.fc(2.0)))
    base = t.ite(t.flt(small, dt), new, t.ite(t.flt(t.fmul(t.fc(2.0), dt), small), t.fmul(t.fc(2.0), dt), dt))
    regs = mpiregs()
    none = [t.fle(o, Z) for o in ods]
    rd = lambda s, ty=ir.F64: ('global', glob[s], ty)
    ck.equal_ob('without scheduled output the step is halved (or cut to the smallest particle step) when too long, doubled when half the smallest suffices',
                run, rd('dt'), base, pre + none, hk, regs, real.Ctx, rel=1e-9, scale=1e-12, abst=generalise(loc, small))
    # the spec of the whole: nearest pending output
    upd = [t.ite(t.and_(t.flt(Z, o), t.feq(tt, x)), t.fadd(x, o), x) for o, x in zip(ods, outs)]
    nxt = t.fadd(tt, base)
    for o, x in zip(ods, upd):
        nxt = t.ite(t.and_(t.flt(Z, o), t.flt(x, nxt)), x, nxt)
    for s, u in zip(('screen', 'scalar', 'h5data'), upd):
        ck.equal_ob('a due %s output moves on by its interval, others stay' % s, run, rd('t_%s_output' % s), u, pre, hk, regs, real.Ctx)
    sl = 1e-9
    ck.valid_ob('the step is positive and never longer than the smallest particle step, nor than twice the previous step', run, [rd('dt')],
                lambda r: t.and_(t.flt(Z, r), t.fle(r, small), t.fle(r, t.fmul(t.fc(2.0), dt))), pre, hk, regs, real.Ctx,
                slack=lambda r: t.and_(t.flt(Z, t.fadd(r, t.fc(1e-15))), t.fle(r, t.fadd(small, t.fc(sl))), t.fle(r, t.fadd(t.fmul(t.fc(2.0), dt), t.fc(sl)))),
                abst=generalise(loc, small), nmax=4)
    ck.valid_ob('the step never passes a pending output time', run, [rd('totaltime_next')],
                lambda r: t.and_(*[t.or_(t.fle(o, Z), t.fle(r, x)) for o, x in zip(ods, upd)]), pre, hk, regs, real.Ctx,
                slack=lambda r: t.and_(*[t.or_(t.fle(o, Z), t.fle(r, t.fadd(x, t.fc(sl)))) for o, x in zip(ods, upd)]),
                abst=generalise(loc, small), nmax=4)
    ck.ident_ob('the next time is the current time plus the step', run, [rd('totaltime_next'), rd('dt')], lambda x, y: (t.fsub(x, tt), y),
                lambda x, y: t.fadd(t.fn('fabs', x), t.fc(1e-6)), pre, hk, regs, real.Ctx, rel=1e-9)
    ck.equal_ob('setting the step does not move the clock', run, rd('totaltime'), tt, pre, hk, regs, real.Ctx, rel=0, scale=0)
    # ---- clock
    run = Run(World(m), nat, 'w_advance', [])
    it = gsym(m, r'^@_ZN7physicsL?9iterationE$', 64)
    ad = param(m, 'adaptive_timestep', 8)

    def hk2(name, idx, g):
        if name == str(ad.d):
            return g.rng.choice([0, 1])
        if name == str(it.d):
            return g.rng.choice([-1, 0, 5, 2 ** 31 - 1, 2 ** 31, 10 ** 12])
    ck.equal_ob('advancing adds one to the iteration count', run, rd('iteration', ('i', 64)), t.add(it, t.bv(1, 64)), [], hk2, {}, real.Ctx)
    ck.equal_ob('the clock advances to the chosen time (adaptive) or by the fixed step', run, rd('totaltime'),
                t.ite(t.eq(ad, t.bv(0, 8)), t.fadd(tt, dt), nx), [t.or_(t.eq(ad, t.bv(0, 8)), t.eq(ad, t.bv(1, 8)))], hk2, {}, real.Ctx)
    ck.equal_ob('advancing leaves the fixed step', run, rd('dt'), dt, [], hk2, {}, real.Ctx, rel=0, scale=0)
    term_ob(ck, m, nat, it, tt)


def generalise(loc, small):
    """smallest step as an arbitrary number below the local minimum"""
    def go(ts):
        c = real.Ctx()
        s, l = t.sym('#small', 'f'), t.sym('#loc', 'f')
        mm = {}
        for y in t.walk(*ts):
            if y.op == 'fold' and (y is loc or c.equal(y, loc, []) is True):
                mm[y] = l
        ts = [t.subst(x, mm) for x in ts]
        ts = [t.subst(x, {t.uf('allmin', (l,), 'f'): s}) for x in ts]
        return ts, []
    return go


def term_ob(ck, m, nat, it, tt):
    run = Run(World(m), nat, 'w_terminate', [], ('i', 32))
    ft = param(m, 'final_time')
    fi, wi = None, None
    for w in (64, 32):
        pass
    g = [n for n in m.globals if re.search(r'^@_ZN5paramL?\d+_final_iterationE$', n)]
    if len(g) != 1:
        raise sx.Unsupported('final_iteration')
    ty = getattr(m.globals[g[0]], 'ty', ('i', 64))
    fi = t.sym('g:%s+0' % g[0][1:], ty[1])
    f64 = fi if ty[1] == 64 else t.sext(fi, 64)

    def hk(name, idx, gen):
        if name in (str(fi.d), str(it.d)):
            return gen.rng.choice([-1, 0, 1, 2, 3, 100, 101]) & ((1 << (ty[1] if name == str(fi.d) else 64)) - 1)
        if name in (str(ft.d), str(tt.d)):
            return gen.rng.choice([-1.0, 0.0, .5, 1.0, 1.5])
    s = t.or_(t.and_(t.slt(t.bv(0, 64), f64), t.slt(f64, it)), t.and_(t.flt(Z, ft), t.flt(ft, tt)))
    ck.equal_ob('the run ends exactly when a positive iteration or time limit is exceeded', run, 'ret', t.ite(s, t.bv(1, 32), t.bv(0, 32)), [], hk,
                {}, real.Ctx)


def thermo_ob(ck, name, H, run, stable, energy, pre, hk, crit):
    def adapt(ts):
        # the three criteria become arbitrary positive numbers
        ts, f1 = named(crit)(ts)
        st = t.subst(stable, {x: t.sym(n, 'f') for x, n, _ in crit})
        S, mm, c = t.sym('#stable', 'f'), {}, real.Ctx()
        for y in t.walk(*ts):
            if y.op == 'fmul' and any(z.op == 'ite' or z.op == 'fn' for z in y.a) and not any(z.op in ('uf', 'sym') and z.d == 'PHI' for z in t.walk(y)) \
                    and (y is st or c.equal(y, st, f1 + pre) is True):
                mm[y] = S
        ts = [t.subst(x, mm) for x in ts]
        # equal comparisons of energies become one unknown comparison
        c, cm = real.Ctx(), {}
        for y in t.walk(*ts):
            if y.op in ('flt', 'fle') and any(z.op == 'uf' and z.d == 'PHI' for z in t.walk(y)) and not any(z.op == 'ite' for z in t.walk(*y.a)):
                k = c.ckey(y)
                cm.setdefault(k, []).append(y)
        atoms = {y: t.flt(Z, t.sym('#cmp%d' % i, 'f')) for i, (k, ys) in enumerate(cm.items()) for y in ys}
        return [t.subst(x, atoms) for x in ts], f1 + [t.flt(Z, S)]

    def lift(r, f):
        return t.ite(r.a[0], lift(r.a[1], f), lift(r.a[2], f)) if r.op == 'ite' else f(r)

    def goal(r):
        ok = lift(r, lambda x: t.and_(t.flt(Z, x), t.fle(x, stable), energy(x)))
        gone = [g for g, _ in run.ex.aborts + run.ex.asserts] if r.op == 'ite' else []           # the routine gave up (error exit)
        return t.or_(*(gone + [ok]))
    ck.valid_ob(name, run, [(H.P, H.F['dt'])], goal, pre, hk, H.regs(), real.Ctx,
                slack=lambda r: t.and_(t.flt(Z, r), t.fle(r, t.fmul(stable, t.fc(1 + 1e-9))), energy(r, 1 + 1e-9)), abst=adapt, direct=True)


if __name__ == '__main__':
    main('P16', body)
