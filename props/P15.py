"""artificial viscosity: acts on approaching pairs only, is dissipative and
symmetric, its parameter stays in bounds"""
from hydrolib import *
from P13 import world, pairhook, q, qv, positive

Z = t.fc(0.0)


def le(a, b):
    return t.fle(a, b)


def body(ck):
    ck.build([(d, 'pair.cc', d, ()) for d in (1, 2, 3)] + [((d, 'h'), 'hydro.cc', d, ()) for d in (1, 2, 3)])
    ck.assume('machine arithmetic read as real arithmetic; literals below 1e-200 as zero')
    ck.assume('contracts of the selected kernel (any function) and gradient (radial and inward, P10/P11)')
    tiny = lambda: real.Ctx(tiny=1e-200)
    for D in (1, 2, 3):
        m, nat = ck.mod((D, 'h')), ck.nat((D, 'h'))
        F = fields(m, D)
        nm = lambda s: '%dD %s' % (D, s)
        # ---- mu
        w = World(m)
        v, x = w.doubles('v', D), w.doubles('x', D)
        h = t.sym('h', 'f')
        eps = param(m, 'sph_viscosity_epsilon')
        vx = dot([w.get(v, 8 * i) for i in range(D)], [w.get(x, 8 * i) for i in range(D)])
        xx = dot([w.get(x, 8 * i) for i in range(D)], [w.get(x, 8 * i) for i in range(D)])
        spec = t.ite(t.flt(vx, Z), t.fdiv(t.fmul(h, vx), t.fadd(xx, t.fmul(eps, t.fmul(h, h)))), Z)
        pre = [t.flt(Z, h), t.flt(Z, eps)]

        def hk(name, idx, g):
            if name == 'h':
                return g.pos()
            if 'viscosity_epsilon' in name:
                return g.rng.choice([.01, .1, 1.])
            if 'viscosity_alpha' in name or 'viscosity_beta' in name or name in ('al', 'rho', 'c'):
                return g.pos()
            if name == 'mu':
                return -g.pos() if g.rng.random() < .8 else 0.0
        for fn in ('w_mu', 'w_mu_swap'):
            run = Run(w, nat, fn, [h, v, x], ir.F64)
            ck.equal_ob(nm('mu = h v.x/(x^2 + eps h^2) for approaching pairs, 0 otherwise' + (' (seen from the other particle)' if fn != 'w_mu' else '')),
                        run, 'ret', spec, pre, hk, None, tiny, rel=1e-9, scale=1e-9)
        run = Run(w, nat, 'w_mu', [h, v, x], ir.F64)
        ck.valid_ob(nm('mu is never positive, and negative exactly for approaching pairs'), run, ['ret'],
                    lambda r: t.and_(le(r, Z), t.or_(le(Z, vx), t.flt(r, Z)), t.or_(t.flt(vx, Z), t.feq(r, Z))), pre, hk, None, tiny)
        # ---- Pi
        al, rho, c, mu = [t.sym(s, 'f') for s in ('al', 'rho', 'c', 'mu')]
        A, B = param(m, 'sph_viscosity_alpha'), param(m, 'sph_viscosity_beta')
        pre = [t.flt(Z, rho), le(Z, c), le(mu, Z), le(Z, al), le(Z, A), le(Z, B)]
        cases = (('w_visc_constant', [al, rho, c, mu], t.fdiv(t.fmul(t.fadd(t.fneg(t.fmul(A, c)), t.fmul(B, mu)), mu), rho), 'constant-alpha Pi = (-alpha c mu + beta mu^2)/rho'),
                 ('w_visc_cullen', [al, rho, c, mu], t.fdiv(t.fmul(t.fneg(t.fmul(al, t.fsub(c, t.fmul(t.fc(2.0), mu)))), mu), rho), 'variable-alpha Pi = -alpha (c - 2 mu) mu/rho'),
                 ('w_artificial', [rho, c, mu], t.fdiv(t.fmul(t.fadd(t.fneg(t.fmul(A, c)), t.fmul(B, mu)), mu), rho), 'stand-alone Pi = (-alpha c mu + beta mu^2)/rho'))
        for fn, args, s, what in cases:
            run = Run(w, nat, fn, args, ir.F64)
            ck.equal_ob(nm(what), run, 'ret', s, pre[:1], hk, None, real.Ctx, rel=1e-9, scale=1e-9)
            ck.valid_ob(nm(what.split(' Pi')[0] + ' Pi is non-negative, and zero for pairs that do not approach'), run, ['ret'],
                        lambda r: t.and_(le(Z, r), t.or_(t.flt(mu, Z), t.feq(r, Z))), pre, hk, None, real.Ctx)
        for k, s in ((0, cases[0][2]), (1, cases[1][2])):
            run = Run(w, nat, 'w_visc_sel', [t.bv(k, 32), al, rho, c, mu], ir.F64)
            ck.equal_ob(nm('the selected viscosity is the %s one' % ('constant', 'variable')[k]), run, 'ret', s, pre[:1], hk, None, real.Ctx,
                        rel=1e-9, scale=1e-9)
        # ---- heating of a pair, any Pi >= 0
        H = world(ck, D, 'w_heat', 2, fields(ck.mod(D), D))
        run = H.run('w_heat', [H.a, H.b2, H.o])
        dx = vsub(H.pv('pos'), qv(H, 'pos'))
        pre = positive(H, (H.a, H.b2), ('density', 'mass', 'radius')) + [t.flt(dot(dx, vsub(H.pv('vel'), qv(H, 'vel'))), Z)]

        def heathook(name, idx, g, base=pairhook(H), H=H):
            if name[:2] in ('P+', 'Q+') and name[2:].isdigit() and int(name[2:]) == H.F['alpha']:
                return g.pos()
            if 'viscosity_epsilon' in name:
                return .1
            return base(name, idx, g)
        heat_ob(ck, nm('viscosity never cools an approaching pair'), H, run, D, pre, heathook)
        # ---- alpha
        H = Hydro(ck, m, nat, D, F)
        run = H.run('w_init_alpha', [H.P])
        kind = param(m, 'sph_viscosity', 32)

        def hka(name, idx, g, base=H.hook()):
            if '_sph_viscosityE' in name:
                return g.rng.choice([0, 1])
            return hk(name, idx, g) if 'viscosity' in name else base(name, idx, g)
        const = visc_value(ck, m)
        ck.equal_ob(nm('alpha starts at the configured constant, or at zero when it varies'), run, (H.P, F['alpha']),
                    t.ite(t.eq(kind, t.bv(const, 32)), A, Z), [t.or_(t.eq(kind, t.bv(0, 32)), t.eq(kind, t.bv(1, 32)))], hka, None, real.Ctx)
        frame_ob(ck, nm('initialising alpha changes nothing else'), run, H.P, [F['alpha']], hka)
        run = H.run('w_xi', ret=ir.F64)
        pre = positive(H, (H.P,), ('density', 'mass', 'radius'))
        ck.valid_ob(nm('the limiter xi lies in [0,1]'), run, ['ret'], lambda r: t.and_(le(Z, r), le(r, t.fc(1.0))), pre, H.hook(), H.regs(),
                    real.Ctx, abst=abstract(), slack=lambda r: t.and_(le(Z, r), le(r, t.fc(1.0 + 1e-12))))
        run = H.run('w_alpha')
        amax, delta, l = (param(m, 'sph_viscosity_' + s) for s in ('alpha_max', 'delta', 'l'))
        vs, term = vsig_spec(H)
        dt = gsym(m, r'^@_ZN7physicsL?2dtE$')
        pre2 = pre + [t.flt(Z, vs), t.flt(Z, amax), t.flt(Z, delta), t.flt(Z, l), le(Z, dt), le(Z, H.p('alpha')), le(H.p('alpha'), amax)]

        def hkb(name, idx, g, base=H.hook()):
            if 'viscosity_alpha_max' in name:
                return 2.0
            if 'viscosity_delta' in name or 'viscosity_l' in name or name.endswith('2dtE+0'):
                return g.pos()
            if name == 'P+%d' % F['alpha']:
                return 2.0 * g.rng.random()
            if name.endswith(('P+%d' % F['divv'], 'nb.%d' % F['divv'])):
                return g.rng.uniform(-2, 2)
            return base(name, idx, g)

        def fold_to_symbol(ts):
            folds = [y for y in t.walk(*ts) if y.op == 'fold']
            ts2, f = ts, []
            # folds equal to the specified signal speed become one positive symbol
            c = real.Ctx()
            sig = t.sym('#vsig', 'f')
            mm = {}
            for y in folds:
                if y is vs or c.equal(y, vs, []) is True:
                    mm[y] = sig
            ts2 = [t.subst(x, mm) for x in ts]
            facts = []
            x0 = [y for y in t.walk(*ts2) if y.op == 'ite']
            ab, more = abstract()(ts2)
            return ab, more + facts
        bound = lambda r: t.and_(le(Z, r), le(r, amax))
        ck.valid_ob(nm('alpha stays within [0, alpha_max]'), run, [(H.P, F['alpha'])], bound, pre2, hkb, H.regs(), real.Ctx,
                    abst=fold_to_symbol, slack=lambda r: t.and_(le(Z, r), le(r, t.fmul(amax, t.fc(1 + 1e-9)))), nmax=5)
        frame_ob(ck, nm('updating alpha changes only alpha and the diagnostics of the limiter'), run, H.P,
                 [F[f] for f in ('alpha', 'xi', 'trigger', 'tracess', 'gradv')], hkb, pre2, H.regs())


def visc_value(ck, m):
    """value of param::visc_constant, read off the selector"""
    return 0


def heat_ob(ck, name, H, run, D, pre, hook):
    """du_a, du_b >= 0 for VISC >= 0, K inward"""
    h = half(H.p('radius'), q(H, 'radius'))

    def abst(ts):
        # contracts: Pi >= 0, K_i = -k x_i with k >= 0
        dx = vsub(H.pv('pos'), qv(H, 'pos'))
        kk, facts, m = t.sym('#k', 'f'), [], {}
        facts.append(t.fle(Z, kk))
        c = H.ctx()
        for y in t.walk(*ts):
            if y.op == 'uf' and y.d == 'VISC':
                s = t.sym('#pi%d' % y.id, 'f')
                facts.append(t.fle(Z, s))
                m[y] = s
            elif y.op == 'uf' and y.d.startswith('K') and y.d[1:].isdigit():
                i = int(y.d[1:])
                want = [c.norm(z).key() for z in dx] + [c.norm(h).key()]
                neg = [c.norm(t.fneg(z)).key() for z in dx] + [c.norm(h).key()]
                got = [c.norm(z).key() for z in y.a]
                if got == want:
                    m[y] = t.fneg(t.fmul(kk, dx[i]))
                elif got == neg:
                    m[y] = t.fmul(kk, dx[i])
        return [t.subst(x, m) for x in ts], facts
    ck.valid_ob(name, run, [(H.o, 0), (H.o, 8)], lambda a, b: t.and_(t.fle(Z, a), t.fle(Z, b)), pre, hook, H.regs(), H.ctx, abst=abst,
                slack=lambda a, b: t.and_(t.fle(t.fc(-1e-9), a), t.fle(t.fc(-1e-9), b)))


if __name__ == '__main__':
    main('P15', body)
