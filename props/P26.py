"""the rates of change are the documented sums, for any number of neighbours"""
from hydrolib import *
from P13 import positive, pairhook
from P14 import iteration


def pieces(H):
    """m_b (0 at the same place), P/rho^2 of both, Pi_ab, gradient, velocities"""
    D = H.D
    p, b = H.p, H.b
    same = t.and_(*[t.feq(x, y) for x, y in zip(H.pv('pos'), H.bv('pos'))])
    mb = t.ite(same, t.fc(0.0), b('mass'))
    pr = lambda g: t.fdiv(g('pressure'), t.fmul(g('density'), g('density')))
    x = vsub(H.pv('pos'), H.bv('pos'))
    v12 = vsub(H.pv('v12'), H.bv('v12'))
    h = half(p('radius'), b('radius'))
    eps = param(H.m, 'sph_viscosity_epsilon')
    vx = dot(v12, x)
    mu = t.ite(t.flt(vx, t.fc(0.0)), t.fdiv(t.fmul(h, vx), t.fadd(dot(x, x), t.fmul(eps, t.fmul(h, h)))), t.fc(0.0))
    Pi = t.uf('VISC', [half(p('alpha'), b('alpha')), half(p('density'), b('density')), half(p('soundspeed'), b('soundspeed')), mu], 'f')
    K = [t.uf('K%d' % i, x + [h], 'f') for i in range(D)]
    return mb, pr(p), pr(b), Pi, K


def body(ck):
    ck.build([((d, 'h'), 'hydro.cc', d, ()) for d in (1, 2, 3)])
    ck.assume('machine arithmetic read as real arithmetic; literals below 1e-200 (the guard of the viscosity denominator) as zero')
    ck.assume('contracts of the selected kernel gradient (function of separation and length), viscosity (function of four arguments), external force (function of position)')
    for D in (1, 2, 3):
        m = ck.mod((D, 'h'))
        F = fields(m, D)
        nm = lambda s: '%dD %s' % (D, s)
        relax, names = iteration(m)

        def mk(fn):
            H = Hydro(ck, m, ck.nat((D, 'h')), D, F)
            H.ext = True
            base = pairhook(H)

            def hk(name, idx, g):
                if name == names[0]:
                    return g.rng.randint(0, 12)
                if name == names[1]:
                    return g.rng.randint(0, 8)
                if 'viscosity_epsilon' in name:
                    return g.rng.choice([.01, .1, 1.])
                return base(name, idx, g)
            run = H.run(fn)
            pre = positive(H, (H.P,), ('density', 'mass', 'radius')) + [t.flt(t.fc(0.0), param(m, 'sph_viscosity_epsilon')),
                                                                        t.ult(t.bv(0, 64), H.n)]
            facts = [t.flt(t.fc(0.0), H.b('radius')), t.flt(t.fc(0.0), H.b('density'))]
            ctx = lambda: real.Ctx(tiny=1e-200)
            return H, run, pre, hk, ctx, facts
        H, run, pre, hk, ctx, facts = mk('w_acceleration')
        mb, pa, pb, Pi, K = pieces(H)
        for i in range(D):
            s = H.sum(t.fneg(t.fmul(t.fmul(mb, t.fadd(t.fadd(pa, pb), Pi)), K[i])))
            spec = t.fadd(s, t.uf('AX%d' % i, H.pv('pos'), 'f'))
            ck.equal_ob(nm('acceleration = -sum m (P_a/rho_a^2 + P_b/rho_b^2 + Pi) grad W + external force, component %d' % i),
                        run, (H.P, F['acc'][i]), spec, pre, hk, H.regs(), ctx, rel=1e-7, scale=1e-4, nmax=6)
            ck.equal_ob(nm('gravitational acceleration starts from zero, component %d' % i), run, (H.P, F['gacc'][i]), t.fc(0.0), pre, hk,
                        H.regs(), ctx, rel=0, scale=0)
        ck.equal_ob(nm('gravitational potential starts from zero'), run, (H.P, F['gpot']), t.fc(0.0), pre, hk, H.regs(), ctx, rel=0, scale=0)
        H, run, pre, hk, ctx, facts = mk('w_dudt')
        mb, pa, pb, Pi, K = pieces(H)
        vk = dot(vsub(H.pv('vel'), H.bv('vel')), K)
        s = H.sum(t.fmul(t.fmul(mb, t.fadd(pa, t.fmul(t.fc(.5), Pi))), vk))
        ck.equal_ob(nm('internal-energy rate = sum m (P_a/rho_a^2 + Pi/2) v_ab.grad W'), run, (H.P, F['dudt']), s, pre + [t.not_(relax)], hk,
                    H.regs(), ctx, rel=1e-7, scale=1e-4, nmax=6)
        H, run, pre, hk, ctx, facts = mk('w_dedt')
        mb, pa, pb, Pi, K = pieces(H)
        va, vb = H.pv('vel'), H.bv('vel')
        ka, kb = dot(va, K), dot(vb, K)
        e = t.fadd(t.fadd(t.fmul(pa, kb), t.fmul(pb, ka)), t.fmul(t.fmul(t.fc(.5), Pi), t.fadd(ka, kb)))
        s = t.fadd(H.sum(t.fneg(t.fmul(mb, e))), dot(H.pv('gacc'), va))
        ck.equal_ob(nm('total-energy rate = -sum m (P_a v_b/rho_a^2 + P_b v_a/rho_b^2 + (v_a+v_b) Pi/2).grad W + v.g'), run, (H.P, F['dedt']), s,
                    pre, hk, H.regs(), ctx, rel=1e-7, scale=1e-4, nmax=6)
        H, run, pre, hk, ctx, facts = mk('w_repulsion')
        gam, rr = param(m, 'relaxation_repulsion_gamma'), param(m, 'relaxation_repulsion_radius')
        x = vsub(H.pv('pos'), H.bv('pos'))
        r = norm(x)
        far = t.flt(t.fmul(half(H.p('radius'), H.b('radius')), rr), r)
        ID = ('i', 64)
        same = t.eq(H.w.get(H.P, F['id'], ID), H.w.elem('nb', H.k, F['id']))

        def hkr(name, idx, g, base=hk):
            if name in ('nb.%d' % F['id'], 'P+%d' % F['id']):
                return g.rng.randrange(4)
            return base(name, idx, g)
        for i in range(D):
            f = t.ite(t.or_(same, far), t.fc(0.0), t.fdiv(t.fmul(H.b('mass'), x[i]), t.fmul(t.fmul(r, r), r)))
            spec = t.fadd(H.p('acc', i), t.fmul(gam, H.sum(f)))
            ck.equal_ob(nm('repulsion adds gamma sum m r/|r|^3 over other particles within its radius, component %d' % i), run,
                        (H.P, F['acc'][i]), spec, pre, hkr, H.regs(), ctx, rel=1e-7, scale=1e-4, nmax=6)


if __name__ == '__main__':
    main('P26', body)
