"""the summary of a tree cell: mass, centre, counts, reach and boxes of
everything below it, for any number of particles and child cells"""
from treelib import *


def body(ck):
    ck.build([(d, 'tree.cc', d, ()) for d in (1, 2, 3)])
    ck.assume('machine arithmetic read as real arithmetic; particle counts below 2^31')
    ck.assume('non-zero total mass (asserted by the code)')
    z = t.fc(0.0)
    for D in (1, 2, 3):
        m, nat = ck.mod(D), ck.nat(D)
        nm = lambda s: '%dD %s' % (D, s)
        F, NF = fields(m, D), nfields(m, D)
        w = World(m)
        NT = node_type(m)
        c = w.obj('c', NT)
        e, n = w.vec_ptr('e', BODY), w.vec_ptr('n', NT)
        ne, nn = w.vecs['e']['n'], w.vecs['n']['n']
        run = Run(w, nat, 't_cofm', [c, e, n])
        k, acc = t.sym('kspec', 64, 2 ** 31 - 2), t.sym('accspec', 'f')
        E = lambda f, i=None: w.elem('e', k, F[f] if i is None else F[f][i])
        C = lambda f, i=None, ty=ir.F64: w.elem('n', k, NF[f] if i is None else NF[f][i], ty)

        def hook(name, idx, g):
            if name in ('e.%d' % F['mass'], 'n.%d' % NF['mass']):
                return g.pos()
            if name in ('e.%d' % F['radius'], 'n.%d' % NF['radius'], 'n.%d' % NF['lap']) and g.mode < .8:
                return g.pos()
            if name == 'n.%d' % NF['sub']:
                return g.rng.randrange(1000)
            return None
        s2 = lambda a, b: t.sum_(t.sum_(z, ne, a, k), nn, b, k)
        f2 = lambda i, a, b: t.fold_(t.fold_(i, ne, a, k, acc), nn, b, k, acc)
        mass = s2(E('mass'), C('mass'))
        pre = [t.or_(t.flt(mass, z), t.flt(z, mass))]

        def eq(what, f, spec, i=None):
            off = NF[f] if i is None else NF[f][i]
            ck.equal_ob(nm(what), run, (c, off), spec, pre, hook, n=200)
        eq('mass is the sum over particles and child cells', 'mass', mass)
        cen = []
        for i in range(D):
            cen.append(t.fdiv(s2(t.fmul(E('mass'), E('pos', i)), t.fmul(C('mass'), C('pos', i))), mass))
            eq('centre is the mass-weighted mean, component %d' % i, 'pos', cen[i], i)
        # the cell's own centre, as stored
        own = [run.cell(c, NF['pos'][i]) for i in range(D)]
        oe = norm([t.fsub(own[i], E('pos', i)) for i in range(D)])
        on = norm([t.fsub(own[i], C('pos', i)) for i in range(D)])
        eq('radius reaches the farthest particle and the far side of every child cell', 'radius',
           f2(z, fmax(acc, oe), fmax(acc, t.fadd(on, C('radius')))))
        eq('reach covers every smoothing sphere', 'lap',
           f2(z, fmax(acc, t.fadd(oe, E('radius'))), fmax(acc, t.fadd(t.fadd(on, C('radius')), C('lap')))))
        big = t.fc(1.7976931348623157e308)
        half_h = t.fmul(t.fc(.5), E('radius'))
        for i in range(D):
            eq('lower box face %d' % i, 'bmin', f2(big, fmin(acc, t.fsub(E('pos', i), half_h)), fmin(acc, C('bmin', i))), i)
            eq('upper box face %d' % i, 'bmax', f2(t.fneg(big), fmax(acc, t.fadd(E('pos', i), half_h)), fmax(acc, C('bmax', i))), i)
        sub = t.add(t.trunc(ne, 32), t.fold_(t.bv(0, 32), nn, t.add(t.sym('ai', 32), C('sub', None, ('i', 32))), k, t.sym('ai', 32)))
        ck.valid_ob(nm('number of particles below'), run, [(c, NF['sub'], ('i', 32))], lambda v: t.eq(v, sub), pre, hook, bits=True)
        allowed = [NF[f] for f in ('mass', 'radius', 'lap', 'sub')] + [o for f in ('pos', 'bmin', 'bmax') for o in NF[f]]
        frame_ob(ck, nm('only the summary is written; particles, child cells and field expansion stay'), run, c, allowed, hook, pre)
        # what a walk may rely on, for every element
        kb = lambda x: (lambda kk: t.subst(x, {k: kk}))
        for wh, vec, tm, up, what in (
                [('radius', 'e', oe, True, 'no particle lies farther from the centre than the radius'),
                 ('radius', 'n', t.fadd(on, C('radius')), True, 'no child cell reaches beyond the radius'),
                 ('lap', 'e', t.fadd(oe, E('radius')), True, 'no smoothing sphere of a particle reaches beyond the reach'),
                 ('lap', 'n', t.fadd(t.fadd(on, C('radius')), C('lap')), True, 'no child cell has a longer reach')]
                + [(('bmin', i), 'e', t.fsub(E('pos', i), half_h), False, 'every particle is inside the lower face %d' % i) for i in range(D)]
                + [(('bmax', i), 'e', t.fadd(E('pos', i), half_h), True, 'every particle is inside the upper face %d' % i) for i in range(D)]
                + [(('bmin', i), 'n', C('bmin', i), False, 'every child box is inside the lower face %d' % i) for i in range(D)]
                + [(('bmax', i), 'n', C('bmax', i), True, 'every child box is inside the upper face %d' % i) for i in range(D)]):
            off = NF[wh] if isinstance(wh, str) else NF[wh[0]][wh[1]]
            bound_ob(ck, nm(what), run, (c, off), vec, kb(tm), up, pre, hook)


if __name__ == '__main__':
    main('P08', body)
