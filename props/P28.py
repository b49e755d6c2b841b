"""the multipole walk lets every particle act on every other exactly once"""
from treelib import *
import procs

BOUND = ('generated particle sets of 1 to 2500 particles (uniform, grouped, lattice, stretched, power law, two separated parts), acceptance '
         'parameters 0, .3, .7, 1 and 3, compared with the list of all pairs; acceptance 0 in 3D with the direct sum of forces')


def body(ck):
    ck.level = 'other'
    lemmas(ck)
    X = procs.exes({d: ('walk.cc', d, ()) for d in (1, 2, 3)})
    s0 = (ck.seed - 1) * 100000
    k = 4 if ck.thorough else 1
    one = [('%dD' % d, X[d], [s0 + 1000 * i, 90, 'fmm'], 1) for d in (1, 2, 3) for i in range(k)]
    one += [('%dD, large' % d, X[d], [s0 + 77 * d, 2 * k, 'fmm', 'big'], 1) for d in (1, 2, 3)]
    many = [('%dD, %d processes' % (d, np), X[d], [s0 + 31 * np, 18 * k, 'fmm'], np) for np in (2, 3, 4, 5, 6, 7) for d in (3, 2, 1)]
    procs.sweep(ck, 'multipole walk of a whole tree, one process', one, BOUND)
    procs.sweep(ck, 'multipole walk of a whole tree, 2 to 7 processes', many, BOUND)


def lemmas(ck):
    """what the acceptance test of the walk guarantees of the particles below
    two cells, given what P08 proves of the radius"""
    ck.build([(d, 'tree.cc', d, ()) for d in (1, 2, 3)])
    ck.assume('machine arithmetic read as real arithmetic (proved part)')
    z, one = t.fc(0.0), t.fc(1.0)
    for D in (1, 2, 3):
        m, nat = ck.mod(D), ck.nat(D)
        w = World(m)
        o = {p: w.doubles(p, D) for p in 'abpq'}
        v = {p: [w.get(o[p], 8 * i) for i in range(D)] for p in o}
        ra, rb, M = (t.sym(x, 'f') for x in ('ra', 'rb', 'M'))
        dd = lambda x, y: norm(vsub(v[x], v[y]))
        run = Run(w, nat, 't_mac', [o['a'], ra, o['b'], rb, M], ('i', 1))
        lim = t.fmul(M, dd('a', 'b'))

        def hook(name, idx, g):
            mm = re.match(r'([abpq])\+(\d+)$', name)
            if mm:
                k, i = mm.group(1), int(mm.group(2)) // 8
                if k in 'ab':
                    return g.f()
                c, r = ('a', ra) if k == 'p' else ('b', rb)
                return g.env['*'](v[c][i]) + g.env['*'](r) * g.rng.uniform(-1, 1) / D ** .5
            if name == 'M':
                return g.rng.choice((0., .5, 1., 2., g.rng.random()))
            if name not in ('ra', 'rb'):
                return abs(g.f())
            x = g.env['*'](dd('a', 'b'))
            return x * g.rng.choice((0., .1, .5, 1., g.rng.random(), g.rng.random()))
        pre = [t.fle(z, ra), t.fle(z, rb), t.fle(z, M)]
        nm = lambda s: '%dD %s' % (D, s)
        ck.valid_ob(nm('far only when the sum of the radii is below acceptance times distance'), run, ['ret'],
                    lambda q: t.or_(t.not_(q), t.flt(t.fadd(ra, rb), lim)), pre, hook, n=300, n_self=10, direct=True)
        ck.valid_ob(nm('far whenever the sum of the radii is below acceptance times distance'), run, ['ret'],
                    lambda q: t.or_(q, t.not_(t.flt(t.fadd(ra, rb), lim))), pre, hook, n=300, n_self=10, direct=True)
        # the walk takes exactly such pairs as far: L = M d(a,b); triangle inequality: P09
        S = {x: t.sym(x, 'f') for x in ('L', 'ab', 'pa', 'pq', 'qb')}
        ck.ob(nm('particles of far cells are at least (1 - acceptance) times the distance apart, their offsets below acceptance times it'),
              lambda: real.Ctx().valid(t.and_(t.fle(t.fsub(S['ab'], S['L']), S['pq']), t.flt(t.fadd(S['pa'], S['qb']), S['L'])),
                                       [t.flt(t.fadd(ra, rb), S['L']), t.fle(S['pa'], ra), t.fle(S['qb'], rb),
                                        t.fle(S['ab'], t.fadd(t.fadd(S['pa'], S['pq']), S['qb']))], 30000) is True or None, None)


if __name__ == '__main__':
    main('P28', body)
