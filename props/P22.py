"""velocity divergence, limiter and viscosity switch are the documented sums"""
from hydrolib import *
from P13 import positive

Z = t.fc(0.0)
ONE = t.fc(1.0)


def body(ck):
    ck.build([((d, 'h'), 'hydro.cc', d, ()) for d in (1, 2, 3)])
    ck.assume('machine arithmetic read as real arithmetic; literals below 1e-200 as zero')
    ck.assume('contracts of the selected kernel and gradient (functions of separation and length)')
    for D in (1, 2, 3):
        one(ck, D)


def one(ck, D):
    m = ck.mod((D, 'h'))
    nat = ck.nat((D, 'h'))
    F = fields(m, D)
    nm = lambda s: '%dD %s' % (D, s)
    dt = gsym(m, r'^@_ZN7physicsL?2dtE$')

    def mk(fn, **kw):
        H = Hydro(ck, m, nat, D, F)
        base = H.hook()

        def hk(name, idx, g):
            if name.endswith('2dtE+0'):
                return g.pos()
            if 'viscosity_alpha_max' in name:
                return 2.0
            if 'viscosity_delta' in name or 'viscosity_l' in name:
                return g.pos()
            if name == 'P+%d' % F['alpha']:
                return 2.0 * g.rng.random()
            if name in ('P+%d' % F['divv'], 'nb.%d' % F['divv']):
                return g.rng.choice([0.0, g.rng.uniform(-2, 2), g.rng.uniform(-1, 1), 1.0])
            if name == 'P+%d' % F['ddivvdt']:
                return g.rng.uniform(-6, 2)
            return base(name, idx, g)
        return H, H.run(fn, **kw), positive(H, (H.P,), ('density', 'mass', 'radius')), hk
    ctx = lambda: real.Ctx(tiny=1e-200)
    kw = dict(rel=1e-7, scale=1e-6, nmax=6)

    def grads(H):
        h = half(H.p('radius'), H.b('radius'))
        x = vsub(H.pv('pos'), H.bv('pos'))
        return x, h, [t.uf('K%d' % i, x + [h], 'f') for i in range(D)]
    # ---- divergence
    H, run, pre, hk = mk('w_divv')
    x, h, K = grads(H)
    div = t.fdiv(H.sum(t.fmul(H.b('mass'), dot(vsub(H.bv('vel'), H.pv('vel')), K))), H.p('density'))
    ck.equal_ob(nm('divergence = sum m_b (v_b - v_a).grad W / rho_a'), run, (H.P, F['divv']), div, pre, hk, H.regs(), ctx, **kw)
    ck.equal_ob(nm('its rate is the change over the step'), run, (H.P, F['ddivvdt']), t.fdiv(t.fsub(div, H.p('divv')), dt),
                pre + [t.flt(Z, dt)], hk, H.regs(), ctx, **kw)
    frame_ob(ck, nm('only the divergence and its rate change'), run, H.P, [F['divv'], F['ddivvdt']], hk, pre, H.regs(), nb=H)

    # ---- limiter
    def limiter(H):
        x, h, K = grads(H)
        d = H.p('divv')
        W = t.uf('W', [norm(x), h], 'f')
        db = H.b('divv')
        sg = t.ite(t.flt(Z, db), ONE, t.ite(t.flt(db, Z), t.fc(-1.0), db))
        R = t.fdiv(H.sum(t.fmul(t.fmul(sg, H.b('mass')), W)), H.p('density'))
        dv = vsub(H.bv('vel'), H.pv('vel'))
        G = [[t.fdiv(H.sum(t.fmul(H.b('mass'), t.fmul(dv[i], K[j]))), H.p('density')) for j in range(D)] for i in range(D)]
        tr = Z
        for i in range(D):
            for j in range(D):
                s = t.fmul(t.fc(.5), t.fadd(G[i][j], G[j][i]))
                if i == j:
                    s = t.fsub(s, t.fdiv(d, t.fc(float(D))))
                tr = t.fadd(tr, t.fmul(s, s))
        u = t.fsub(ONE, R)
        u2 = t.fmul(u, u)
        q = t.fmul(t.fmul(t.fc(2.0), t.fmul(u2, u2)), d)
        q = t.fmul(q, q)
        return G, tr, t.ite(t.flt(q, t.fc(1e-16)), Z, t.fdiv(q, t.fadd(q, tr)))
    H, run, pre, hk = mk('w_xi', ret=ir.F64)
    G, tr, xi = limiter(H)
    ck.equal_ob(nm('shear = squared norm of the traceless symmetric velocity gradient'), run, (H.P, F['tracess']), tr, pre, hk, H.regs(), ctx, **kw)
    ck.equal_ob(nm('limiter = q/(q + shear), q = (2 (1-R)^4 div)^2'), run, 'ret', xi, pre, hk, H.regs(), ctx, **kw)
    frame_ob(ck, nm('the limiter changes only its own diagnostics'), run, H.P, [F['tracess'], F['gradv']], hk, pre, H.regs(), nb=H)
    # ---- alpha
    H, run, pre, hk = mk('w_alpha')
    G, tr, xi = limiter(H)
    amax, delta, l = (param(m, 'sph_viscosity_' + s) for s in ('alpha_max', 'delta', 'l'))
    vs, term = vsig_spec(H)
    src = t.ite(t.flt(H.p('ddivvdt'), Z), t.fneg(H.p('ddivvdt')), Z)
    A = t.fmul(xi, src)
    c = t.fdiv(vs, H.p('radius'))
    loc = t.fdiv(t.fmul(amax, A), t.fadd(t.fmul(delta, t.fmul(c, c)), A))
    al = H.p('alpha')
    decay = t.fdiv(H.p('radius'), t.fmul(t.fmul(t.fc(2.0), l), vs))
    new = t.ite(t.fle(al, loc), loc, t.fmul(al, t.fn('exp', t.fneg(t.fmul(t.fdiv(t.fsub(al, loc), decay), dt)))))
    pre2 = pre + [t.flt(Z, vs), t.flt(Z, amax), t.flt(Z, delta), t.flt(Z, l), t.flt(Z, dt)]
    ck.equal_ob(nm('switch source = max(-rate of divergence, 0)'), run, (H.P, F['trigger']), src, pre2, hk, H.regs(), ctx, **kw)
    ck.equal_ob(nm('limiter is kept with the particle'), run, (H.P, F['xi']), xi, pre2, hk, H.regs(), ctx, **kw)

    def abst(ts):
        c_ = ctx()
        for spec, name, ops in ((xi, '#xi', ('ite',)), (vs, '#vs', ('fold',)), (src, '#src', ('ite', 'fn'))):
            sym, mm = t.sym(name, 'f'), {}
            for y in t.walk(*ts):
                if y is spec or (y.op in ops and y.s == 'f' and len(list(t.walk(y))) < 4 * len(list(t.walk(spec))) and c_.equal(y, spec, pre) is True):
                    mm[y] = sym
            for y in sorted(mm, key=lambda y: -y.id):
                ts = [t.subst(z, {y: sym}) for z in ts]
        return ts, [t.flt(Z, t.sym('#vs', 'f')), t.fle(Z, t.sym('#src', 'f')), t.fle(Z, t.sym('#xi', 'f'))]
    ck.equal_ob(nm('alpha jumps up to its local value or decays towards it'), run, (H.P, F['alpha']), new, pre2, hk, H.regs(), ctx, abst=abst, **kw)


if __name__ == '__main__':
    main('P22', body)
