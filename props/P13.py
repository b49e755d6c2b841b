"""pressure/viscous and repulsion forces: equal and opposite along the line of
centres for every pair, additive over neighbours, nothing from itself"""
from hydrolib import *


def world(ck, D, fn, k, F):
    """two particles a, b and an output of k doubles"""
    m = ck.mod(D)
    H = Hydro(ck, m, ck.nat(D), D, F)
    H.a = H.P
    H.b2 = H.w.obj('Q', BODY)
    H.o = H.w.out('o', 8 * k)
    return H


def pairhook(H, ids=None):
    base = H.hook()
    offs = {H.F[f] for f in ('mass', 'radius', 'density', 'soundspeed', 'pressure')}

    def hk(name, idx, g):
        if name.startswith('Q+') and name[2:].isdigit() and int(name[2:]) in offs:
            return g.pos()
        if 'relaxation_repulsion_radius' in name:
            return g.rng.choice([.5, 1., 3.])
        return base(name, idx, g)
    return hk


def q(H, f, i=None):
    return H.w.get(H.b2, H.F[f] if i is None else H.F[f][i])


def qv(H, f):
    return [q(H, f, i) for i in range(H.D)]


def positive(H, objs, fs):
    return [t.flt(t.fc(0.0), H.w.get(o, H.F[f])) for o in objs for f in fs]


def body(ck):
    ck.build([(d, 'pair.cc', d, ()) for d in (1, 2, 3)] + [((d, 'h'), 'hydro.cc', d, ()) for d in (1, 2, 3)])
    ck.assume('machine arithmetic read as real arithmetic')
    ck.assume('contract of the selected kernel gradient: radial, K(x,h) = x k(|x|^2,h) (proved for every kernel by P11); of the selected viscosity: a function of its four arguments')
    ck.assume('no external force selected (external forces act on single particles, P20)')
    for D in (1, 2, 3):
        F = fields(ck.mod(D), D)
        nm = lambda s: '%dD %s' % (D, s)
        # two particles that see each other
        for fn, what in (('w_pair', 'pressure and viscous'), ('w_pair_repulsion', 'short-range repulsion')):
            H = world(ck, D, fn, 2 * D, F)
            hook, regs = pairhook(H), H.regs()
            run = H.run(fn, [H.a, H.b2, H.o])
            ma, mb = H.p('mass'), q(H, 'mass')
            pre = positive(H, (H.a, H.b2), ('density', 'mass', 'radius'))
            if fn == 'w_pair_repulsion':
                pre.append(t.not_(t.eq(H.w.get(H.a, F['id'], ('i', 64)), H.w.get(H.b2, F['id'], ('i', 64)))))
                d2 = dot(vsub(H.pv('pos'), qv(H, 'pos')), vsub(H.pv('pos'), qv(H, 'pos')))
                pre.append(t.flt(t.fc(0.0), d2))
            A = [(H.o, 8 * i) for i in range(D)]
            Bq = [(H.o, 8 * (D + i)) for i in range(D)]
            for i in range(D):
                ck.ident_ob(nm('%s momentum exchange of a pair cancels, component %d' % (what, i)), run, [A[i], Bq[i]],
                            lambda x, y: (t.fmul(ma, x), t.fneg(t.fmul(mb, y))),
                            lambda x, y: t.fadd(t.fn('fabs', t.fmul(ma, x)), t.fn('fabs', t.fmul(mb, y))),
                            pre, hook, regs, H.ctx, rel=1e-8)
            dx = vsub(H.pv('pos'), qv(H, 'pos'))
            for i in range(D):
                for j in range(i):
                    ck.ident_ob(nm('%s force is along the line of centres, torque component %d%d' % (what, j, i)), run, [A[j], A[i]],
                                lambda x, y, i=i, j=j: (t.fmul(dx[j], y), t.fmul(dx[i], x)),
                                lambda x, y, i=i, j=j: t.fadd(t.fn('fabs', t.fmul(dx[j], y)), t.fn('fabs', t.fmul(dx[i], x))),
                                pre, hook, regs, H.ctx, rel=1e-8)
        # itself
        H = world(ck, D, 'w_self', D + 1, F)
        run = H.run('w_self', [H.a, H.o])
        pre = positive(H, (H.a,), ('density', 'mass', 'radius'))
        for i in range(D):
            ck.equal_ob(nm('a particle exerts no force on itself, component %d' % i), run, (H.o, 8 * i), t.fc(0.0), pre, pairhook(H),
                        H.regs(), H.ctx, rel=0, scale=0)
        # any number of neighbours
        for fn, what, k in (('w_additive', 'pressure and viscous', 2 * D + 2), ('w_additive_rep', 'short-range repulsion', 2 * D)):
            H = world(ck, D, fn, k, F)
            run = H.run(fn, [H.P, H.nb, H.o])
            pre = positive(H, (H.a,), ('density', 'mass', 'radius'))

            def hook(name, idx, g, base=pairhook(H), H=H):
                if name == 'nb.%d' % F['id'] or name == 'P+%d' % F['id']:
                    return g.rng.randrange(4)
                return base(name, idx, g)
            for i in range(D):
                ck.ident_ob(nm('%s acceleration is the sum over single neighbours, component %d' % (what, i)), run,
                            [(H.o, 8 * i), (H.o, 8 * (D + i))], lambda x, y: (x, y),
                            lambda x, y: t.fadd(t.fc(1e-6), t.fadd(t.fn('fabs', x), t.fn('fabs', y))), pre, hook, H.regs(), H.ctx,
                            rel=1e-7, nmax=6)
        H = Hydro(ck, ck.mod((D, 'h')), ck.nat((D, 'h')), D, F)
        pre = positive(H, (H.P,), ('density', 'mass', 'radius')) + [t.ult(t.bv(0, 64), H.n)]
        run = H.run('w_acceleration')
        frame_ob(ck, nm('computing the hydrodynamic acceleration changes the accelerations of this particle only'), run, H.P,
                 [F['gpot']] + F['acc'] + F['gacc'], H.hook(), pre, H.regs())
        run = H.run('w_repulsion')
        frame_ob(ck, nm('adding the repulsion changes the acceleration of this particle only'), run, H.P, F['acc'], pairhook(H), pre, H.regs())


if __name__ == '__main__':
    main('P13', body)
