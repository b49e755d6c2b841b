"""gravity: Newton's law between particles, field of a cell, first-order
expansion, additivity over any number of sources, equal and opposite pulls"""
from treelib import *


def body(ck):
    ck.build([(d, 'gravity.cc', d, ()) for d in (1, 2, 3)])
    ck.assume('machine arithmetic read as real arithmetic; positive distances')
    z = t.fc(0.0)
    for D in (1, 2, 3):
        m, nat = ck.mod(D), ck.nat(D)
        nm = lambda s: '%dD %s' % (D, s)
        F, NF = fields(m, D), nfields(m, D)
        NT = node_type(m)
        G = gsym(m, r'^@_ZN3fmm2gcE$')

        def law(M, x, y):
            """(potential, acceleration) at x due to mass M at y"""
            r = vsub(x, y)
            d = norm(r)
            gm = t.fmul(G, M)
            return (t.fneg(t.fdiv(gm, d)), [t.fneg(t.fdiv(t.fmul(gm, c), t.fmul(d, t.fmul(d, d)))) for c in r], t.flt(z, d))

        def allequal(what, run, outs, pre, hook=None, n=200, nmax=4):
            for (where, lab), spec in outs:
                ck.equal_ob(nm('%s: %s' % (what, lab)), run, where, spec, pre, hook, n=n, nmax=nmax)
        dv = lambda w, o: [w.get(o, 8 * i) for i in range(D)]
        bf = lambda w, o, f: [w.get(o, x) for x in F[f]]
        nf = lambda w, o, f: [w.get(o, x) for x in NF[f]]
        # one particle on a point
        w = World(m)
        po, a, b, o = w.doubles('pot', 1), w.doubles('a', D), w.doubles('b', D), w.out('o', 8 * D)
        M = t.sym('M', 'f')
        run = Run(w, nat, 'w_p2p', [po, a, b, M, o])
        phi, acc, far = law(M, dv(w, a), dv(w, b))
        allequal('particle on particle', run, [(((po, 0), 'potential'), t.fadd(w.get(po, 0), phi))] +
                 [(((o, 8 * i), 'acceleration %d' % i), acc[i]) for i in range(D)], [far])
        # a cell or a particle as the source of a field
        for fn, src, ty in (('w_fc_node', 'cell', NT), ('w_fc_body', 'particle', BODY)):
            w = World(m)
            po, fc, x, s = w.doubles('pot', 1), w.doubles('fc', D), w.doubles('x', D), w.obj('s', ty)
            run = Run(w, nat, fn, [po, fc, x, s])
            ps, ms = (nf(w, s, 'pos'), w.get(s, NF['mass'])) if src == 'cell' else (bf(w, s, 'pos'), w.get(s, F['mass']))
            phi, acc, far = law(ms, dv(w, x), ps)
            allequal('field of a ' + src, run, [(((po, 0), 'potential'), t.fadd(w.get(po, 0), phi))] +
                     [(((fc, 8 * i), 'acceleration %d' % i), t.fadd(w.get(fc, 8 * i), acc[i])) for i in range(D)], [far])
        for fn, src, ty in (('w_c2c', 'cell', NT), ('w_p2c', 'particle', BODY)):
            w = World(m)
            c, s = w.obj('c', NT), w.obj('s', ty)
            run = Run(w, nat, fn, [c, s])
            ps, ms = (nf(w, s, 'pos'), w.get(s, NF['mass'])) if src == 'cell' else (bf(w, s, 'pos'), w.get(s, F['mass']))
            phi, acc, far = law(ms, nf(w, c, 'pos'), ps)
            allequal('%s on a cell' % src, run, [(((c, NF['pc']), 'potential'), t.fadd(w.get(c, NF['pc']), phi))] +
                     [(((c, NF['fc'][i]), 'acceleration %d' % i), t.fadd(w.get(c, NF['fc'][i]), acc[i])) for i in range(D)], [far])
            frame_ob(ck, nm('%s on a cell: only the field expansion of the cell changes' % src), run, c, [NF['pc']] + NF['fc'], None, [far])
        # from the cell to its particles
        w = World(m)
        b, s = w.obj('b', BODY), w.obj('s', NT)
        run = Run(w, nat, 'w_c2p', [b, s])
        r = vsub(bf(w, b, 'pos'), nf(w, s, 'pos'))
        allequal('cell to particle', run,
                 [(((b, F['gpot']), 'potential to first order'), t.fadd(w.get(b, F['gpot']), t.fsub(w.get(s, NF['pc']), dot(r, nf(w, s, 'fc')))))] +
                 [(((b, F['gacc'][i]), 'acceleration %d' % i), t.fadd(w.get(b, F['gacc'][i]), w.get(s, NF['fc'][i]))) for i in range(D)], ())
        frame_ob(ck, nm('cell to particle: only the gravity of the particle changes'), run, b, [F['gpot']] + F['gacc'])
        # any number of particles
        class HH:
            pass
        for fn in ('w_fmm_c2p', 'w_fmm_p2p', 'w_fmm_p2p0'):
            w = World(m)
            s = w.obj('s', NT) if fn != 'w_fmm_p2p0' else None
            vb = w.vec_ptr('vb', BODY)
            vq = w.vec_ptr('q', BODY) if fn != 'w_fmm_c2p' else None
            run = Run(w, nat, fn, [s, vb] if fn == 'w_fmm_c2p' else [x for x in (vb, s, vq) if x is not None])
            H = HH()
            H.w, H.F, H.D = w, F, D

            def hook(name, idx, g):
                if name in ('q.%d' % F['id'], 'vb.%d' % F['id']):
                    return g.rng.randrange(5)
                if name in ['%s.%d' % (a_, x) for x in F['pos'] for a_ in ('q', 'vb')] + ['s+%d' % x for x in NF['pos']]:
                    return g.rng.uniform(-2, 2)
            V = VecOb(ck, H, run, 'vb', hook)
            xj = [V.E('pos', i) for i in range(D)]
            p0, a0, facts = V.E('gpot'), [V.E('gacc', i) for i in range(D)], []
            if fn == 'w_fmm_c2p':
                r = vsub(xj, nf(w, s, 'pos'))
                p1 = t.fadd(p0, t.fsub(w.get(s, NF['pc']), dot(r, nf(w, s, 'fc'))))
                a1 = [t.fadd(x, y) for x, y in zip(a0, nf(w, s, 'fc'))]
                what = 'expansion of a cell to each of its particles'
            else:
                if s is not None:
                    ph, ac, fr = law(w.get(s, NF['mass']), xj, nf(w, s, 'pos'))
                    p0, a0 = t.fadd(p0, ph), [t.fadd(x, y) for x, y in zip(a0, ac)]
                    facts.append(fr)
                k, n = t.sym('kspec', 64, 2 ** 31 - 2), w.vecs['q']['n']
                Q = lambda f, i=None, ty=ir.F64: w.elem('q', k, F[f] if i is None else F[f][i], ty)
                phi, acc, far = law(Q('mass'), xj, [Q('pos', i) for i in range(D)])
                me = t.eq(w.elem('vb', V.j, F['id'], ('i', 64)), Q('id', None, ('i', 64)))
                sm = lambda i0, x: t.sum_(i0, n, t.ite(me, z, x), k)
                p1, a1 = sm(p0, phi), [sm(x, y) for x, y in zip(a0, acc)]
                what = 'each of any number of particles, any sources' + (' and a cell' if s is not None else '')
            V.equal(nm(what + ': potential'), 'gpot', p1, facts=facts)
            for i in range(D):
                V.equal(nm(what + ': acceleration %d' % i), 'gacc', a1[i], i, facts=facts)
            V.frame(nm(what + ': only gravity changes'), [F['gpot']] + F['gacc'])
        # a pair
        w = World(m)
        a, b, fa, fb = w.doubles('a', D), w.doubles('b', D), w.out('fa', 8 * D), w.out('fb', 8 * D)
        ma, mb = t.sym('ma', 'f'), t.sym('mb', 'f')
        run = Run(w, nat, 'w_pair', [a, ma, b, mb, fa, fb])
        far = t.flt(z, norm(vsub(dv(w, a), dv(w, b))))
        for i in range(D):
            ck.ident_ob(nm('the pulls of two particles on each other cancel, component %d' % i), run, [(fa, 8 * i), (fb, 8 * i)],
                        lambda x, y: (x, t.fneg(y)), lambda x, y: t.fadd(t.fn('fabs', x), t.fn('fabs', y)), [far])
        # any number of sources
        for node in (True, False):
            w = World(m)
            b, q = w.obj('b', BODY), w.vec_ptr('q', BODY)
            n = w.vecs['q']['n']
            s = w.obj('s', NT) if node else None
            run = Run(w, nat, 'w_fmm_p2p1' if node else 'w_fmm_p2p10', [b, s, q] if node else [b, q])
            k = t.sym('kspec', 64, 2 ** 31 - 2)
            Q = lambda f, i=None, ty=ir.F64: w.elem('q', k, F[f] if i is None else F[f][i], ty)
            phi, acc, far = law(Q('mass'), bf(w, b, 'pos'), [Q('pos', i) for i in range(D)])
            me = t.eq(w.get(b, F['id'], ('i', 64)), Q('id', None, ('i', 64)))
            pre = []
            p0, a0 = w.get(b, F['gpot']), bf(w, b, 'gacc')
            if node:
                ph, ac, fr = law(w.get(s, NF['mass']), bf(w, b, 'pos'), nf(w, s, 'pos'))
                p0, a0 = t.fadd(p0, ph), [t.fadd(x, y) for x, y in zip(a0, ac)]
                pre.append(fr)

            def hook(name, idx, g):
                if name in ('q.%d' % F['id'], 'b+%d' % F['id']):
                    return g.rng.randrange(5)
                if name in ['q.%d' % x for x in F['pos']]:
                    return g.rng.uniform(-2, 2)
                if name in ['b+%d' % x for x in F['pos']]:
                    return g.rng.uniform(-2, 2)
            sm = lambda i0, x: t.sum_(i0, n, t.ite(me, z, x), k)
            allequal('any number of sources%s' % (' and a cell' if node else ''), run,
                     [(((b, F['gpot']), 'potential'), sm(p0, phi))] + [(((b, F['gacc'][i]), 'acceleration %d' % i), sm(a0[i], acc[i])) for i in range(D)],
                     pre, hook)
            frame_ob(ck, nm('any number of sources%s: only the gravity of the particle changes' % (' and a cell' if node else '')), run, b,
                     [F['gpot']] + F['gacc'], hook, pre)


if __name__ == '__main__':
    main('P17', body)
