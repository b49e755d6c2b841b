"""energy bookkeeping"""
from hydrolib import *
from P13 import world, pairhook, q, qv, positive


def iteration(m):
    it = [g for g in m.globals if re.search(r'^@_ZN7physicsL?9iterationE$', g)]
    rs = [g for g in m.globals if re.search(r'^@_ZN5paramL?17_relaxation_stepsE$', g)]
    if len(it) != 1 or len(rs) != 1:
        raise sx.Unsupported('iteration counters not found')
    wi, wr = (m.globals[g].ty if hasattr(m.globals[g], 'ty') else None for g in (it[0], rs[0]))
    wi = wi[1] if wi and wi[0] == 'i' else 64
    wr = wr[1] if wr and wr[0] == 'i' else 32
    a, b = t.sym('g:%s+0' % it[0][1:], wi), t.sym('g:%s+0' % rs[0][1:], wr)
    x, y = (a if wi == 64 else t.sext(a, 64)), (b if wr == 64 else t.sext(b, 64))
    return t.slt(x, y), (str(a.d), str(b.d))


def magn(*xs):
    r = t.fc(1e-9)
    for x in xs:
        r = t.fadd(r, t.fn('fabs', x))
    return r


def body(ck):
    ck.build([(d, 'pair.cc', d, ()) for d in (1, 2, 3)] + [((d, 'h'), 'hydro.cc', d, ()) for d in (1, 2, 3)])
    ck.assume('machine arithmetic read as real arithmetic')
    ck.assume('contract of the selected kernel gradient: radial (P11); of the selected viscosity: a function of its four arguments')
    ck.assume('contract of the external force and potential: functions of the position')
    for D in (1, 2, 3):
        m = ck.mod(D)
        F = fields(m, D)
        nm = lambda s: '%dD %s' % (D, s)
        relax, names = iteration(m)
        run_ok = t.not_(relax)

        def hooked(H):
            base = pairhook(H)

            def hk(name, idx, g):
                if name == names[0]:
                    return g.rng.randint(0, 12)
                if name == names[1]:
                    return g.rng.randint(0, 8)
                return base(name, idx, g)
            return hk
        # pair exchange
        H = world(ck, D, 'w_pair_energy', 2 * D + 2, F)
        run = H.run('w_pair_energy', [H.a, H.b2, H.o])
        pre = positive(H, (H.a, H.b2), ('density', 'mass', 'radius')) + [run_ok]
        wh = [(H.o, 8 * i) for i in range(2 * D + 2)]

        def sides(*v):
            ka = t.fmul(H.p('mass'), t.fadd(dot(H.pv('vel'), v[:D]), v[2 * D]))
            kb = t.fmul(q(H, 'mass'), t.fadd(dot(qv(H, 'vel'), v[D:2 * D]), v[2 * D + 1]))
            return ka, t.fneg(kb)

        def mag(*v):
            return magn(*[t.fmul(H.p('mass'), t.fmul(x, y)) for x, y in zip(H.pv('vel'), v[:D])],
                        *[t.fmul(q(H, 'mass'), t.fmul(x, y)) for x, y in zip(qv(H, 'vel'), v[D:2 * D])],
                        t.fmul(H.p('mass'), v[2 * D]), t.fmul(q(H, 'mass'), v[2 * D + 1]))
        ck.ident_ob(nm('a pair exchanges kinetic against internal energy without loss'), run, wh, sides, mag, pre, hooked(H),
                    H.regs(), H.ctx, rel=1e-8)
        H = world(ck, D, 'w_pair_dedt', 2, F)
        H2 = H
        run = H.run('w_pair_dedt', [H.a, H.b2, H.o])
        pre = positive(H, (H.a, H.b2), ('density', 'mass', 'radius'))
        gv = lambda o: dot([H2.w.get(o, F['gacc'][i]) for i in range(D)], [H2.w.get(o, F['vel'][i]) for i in range(D)])
        ck.ident_ob(nm('total-energy exchange of a pair cancels apart from gravity'), run, [(H.o, 0), (H.o, 8)],
                    lambda x, y: (t.fmul(H2.p('mass'), t.fsub(x, gv(H2.a))), t.fneg(t.fmul(q(H2, 'mass'), t.fsub(y, gv(H2.b2))))),
                    lambda x, y: magn(t.fmul(H2.p('mass'), x), t.fmul(q(H2, 'mass'), y), t.fmul(H2.p('mass'), gv(H2.a)),
                                      t.fmul(q(H2, 'mass'), gv(H2.b2))),
                    pre, hooked(H), H.regs(), H.ctx, rel=1e-8)
        # the two energy equations agree, any number of neighbours
        H = world(ck, D, 'w_energy_rates', 2, F)
        H.ext = True
        run = H.run('w_energy_rates', [H.P, H.nb, H.o])
        pre = positive(H, (H.a,), ('density', 'mass', 'radius')) + [run_ok]
        ck.ident_ob(nm('total-energy rate = internal-energy rate + work of pressure, viscosity and gravity, any number of neighbours'),
                    run, [(H.o, 0), (H.o, 8)], lambda x, y: (x, y),
                    lambda x, y: magn(x, y, t.fc(1e-5), dot(H.pv('vel'), H.pv('vel')), dot(H.pv('gacc'), H.pv('gacc'))), pre, hooked(H), H.regs(), H.ctx, rel=1e-6, nmax=6)
        # additivity of dudt
        H = world(ck, D, 'w_additive', 2 * D + 2, F)
        run = H.run('w_additive', [H.P, H.nb, H.o])
        pre = positive(H, (H.a,), ('density', 'mass', 'radius'))
        ck.ident_ob(nm('internal-energy rate is the sum over single neighbours'), run, [(H.o, 16 * D), (H.o, 16 * D + 8)],
                    lambda x, y: (x, y), lambda x, y: t.fadd(magn(x, y), t.fc(1e-6)), pre, hooked(H), H.regs(), H.ctx, rel=1e-7, nmax=6)
        # relaxation
        H = Hydro(ck, ck.mod((D, 'h')), ck.nat((D, 'h')), D, F)
        run = H.run('w_dudt')
        ck.equal_ob(nm('internal energy is frozen during relaxation steps'), run, (H.P, F['dudt']), t.fc(0.0), [relax], hooked(H), H.regs(),
                    H.ctx, rel=0, scale=0)
        frame_ob(ck, nm('internal-energy rate changes nothing else'), run, H.P, [F['dudt']], hooked(H), [], H.regs())
        run = H.run('w_dedt')
        frame_ob(ck, nm('total-energy rate changes nothing else'), run, H.P, [F['dedt']], hooked(H), [], H.regs())
        # set / recover
        for fn in ('w_total_energy', 'w_recover', 'w_recover2'):
            H = Hydro(ck, ck.mod((D, 'h')), ck.nat((D, 'h')), D, F)
            H.ext = True
            run = H.run(fn, [H.P])
            ekin = t.fmul(t.fc(.5), dot(H.pv('vel'), H.pv('vel')))
            pot = t.uf('PHI', H.pv('pos'), 'f')
            base = hooked(H)

            def hk(name, idx, g, base=base):
                if name == 'P+%d' % F['eint']:
                    return g.pos()
                if name == 'P+%d' % F['etot']:
                    return g.pos() + 30.0
                return base(name, idx, g)
            if fn == 'w_total_energy':
                ck.equal_ob(nm('total energy = internal + kinetic + external potential'), run, (H.P, F['etot']),
                            t.fadd(t.fadd(ekin, H.p('eint')), pot), [], hk, H.regs(), H.ctx, rel=1e-9, scale=1.0)
                frame_ob(ck, nm('setting the total energy changes nothing else'), run, H.P, [F['etot']], hk, [], H.regs())
            elif fn == 'w_recover':
                pre = [t.flt(t.fc(1e-3), H.p('eint'))]
                ck.equal_ob(nm('recovering the internal energy from the total energy inverts setting it'), run, (H.P, F['eint']), H.p('eint'),
                            pre, hk, H.regs(), H.ctx, rel=1e-6, scale=1.0)
            else:
                pre = [t.flt(t.fc(1e-3), t.fsub(t.fsub(H.p('etot'), ekin), pot))]
                ck.equal_ob(nm('setting the total energy inverts recovering the internal energy'), run, (H.P, F['etot']), H.p('etot'), pre, hk,
                            H.regs(), H.ctx, rel=1e-6, scale=1.0)
                ck.equal_ob(nm('recovered internal energy = total - kinetic - external potential'), run, (H.P, F['eint']),
                            t.fsub(t.fsub(H.p('etot'), ekin), pot), pre, hk, H.regs(), H.ctx, rel=1e-6, scale=1.0)
                frame_ob(ck, nm('recovering changes nothing but the energies'), run, H.P, [F['etot'], F['eint']], hk, pre, H.regs())
        # drag
        H = world(ck, D, 'w_drag', 3, F)
        run = H.run('w_drag', [H.P, H.o])
        for k, what in ((1, 'internal'), (2, 'total')):
            ck.ident_ob(nm('drag changes the %s-energy rate by its power' % what), run, [(H.o, 0), (H.o, 8 * k)], lambda x, y: (x, y),
                        lambda x, y: t.fadd(magn(x, y), t.fc(1.0)), [], hooked(H), H.regs(), H.ctx, rel=1e-8)


if __name__ == '__main__':
    main('P14', body)
