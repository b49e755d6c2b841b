"""the neighbour walk hands every particle its neighbours, whole tree, any
number of processes"""
from treelib import *
import procs


def body(ck):
    ck.level = 'other'
    lemmas(ck)
    X = procs.exes({d: ('walk.cc', d, ()) for d in (1, 2, 3)})
    s0 = (ck.seed - 1) * 100000
    k = 4 if ck.thorough else 1
    one = lambda mode, n: [('%s, %dD' % (mode, d), X[d], [s0 + 1000 * i, n, mode], 1) for d in (1, 2, 3) for i in range(k)]
    big = lambda mode: [('%s, %dD, large' % (mode, d), X[d], [s0 + 77 * d, 2 * k, mode, 'big'], 1) for d in (1, 2, 3)]
    many = lambda mode, n: [('%s, %dD, %d processes' % (mode, d, np), X[d], [s0 + 31 * np, n * k, mode], np)
                            for np in (2, 3, 4, 5, 6, 7) for d in (3, 2, 1)]
    procs.sweep(ck, 'neighbour walk of a whole tree, one process', one('sph', 270) + big('sph'), BOUND)
    procs.sweep(ck, 'radius search of a whole tree', one('radius', 180), BOUND)
    procs.sweep(ck, 'neighbour walk of a whole tree, 2 to 7 processes', many('sph', 24), BOUND)


def lemmas(ck):
    """no test of the walk turns a true neighbour away, given what P08 proves of
    the cell summaries (box holds x -+ h/2, radius and lap reach everything)"""
    ck.build([(d, 'tree.cc', d, ()) for d in (1, 2, 3)])
    ck.assume('machine arithmetic read as real arithmetic (proved part)')
    z, hf = t.fc(0.0), t.fc(.5)
    for D in (1, 2, 3):
        m, nat = ck.mod(D), ck.nat(D)
        nm = lambda s: '%dD %s' % (D, s)
        w = World(m)
        o = {p: w.doubles(p, D) for p in 'abcdxy'}
        v = {p: [w.get(o[p], 8 * i) for i in range(D)] for p in o}
        ha, hb, R, L, r = (t.sym(x, 'f') for x in ('ha', 'hb', 'R', 'L', 'r'))
        a, b = v['x'], v['y']
        mean = t.fmul(hf, t.fadd(ha, hb))
        sep = vsub(a, b)
        pre = [t.fle(z, ha), t.fle(z, hb), t.fle(dot(sep, sep), t.fmul(mean, mean))]
        comp = [t.fle(t.fmul(s_, s_), t.fmul(mean, mean)) for s_ in sep]     # each component of the separation
        box = lambda lo, hi, c, h: [q for i in range(D) for q in (t.fle(lo[i], t.fsub(c[i], t.fmul(hf, h))), t.fle(t.fadd(c[i], t.fmul(hf, h)), hi[i]))]

        def hk(name, idx, g):
            mm = re.match(r'([abcdxy])\+(\d+)$', name)
            if mm:
                k, i = mm.group(1), int(mm.group(2)) // 8
                if k == 'x':
                    return g.f()
                if k == 'y':
                    return g.env['*'](a[i]) + g.env['*'](mean) * g.rng.uniform(-1, 1) / D ** .5
                q, h = (b, hb) if k in 'ab' else (a, ha)
                sg = -1 if k in 'ac' else 1
                return g.env['*'](q[i]) + sg * (.5 * g.env['*'](h) * (1 + 1e-9) + (g.pos() if g.rng.random() < .4 else 0.))
            return abs(g.f())
        run = Run(w, nat, 't_box_box', [o['a'], o['b'], o['c'], o['d']], ('i', 1))
        pp = pre + box(v['a'], v['b'], b, hb) + box(v['c'], v['d'], a, ha)
        yes = lambda q: q
        ck.valid_ob(nm('box test keeps every pair within the mean smoothing length'), run, ['ret'], yes, pp, hk, facts=comp, n=400, n_self=10, direct=True)
        # the same for the sphere test, in three steps: a bound on the part of
        # the separation beyond hb/2, the gap to the box is below it, the test
        H, h = t.fmul(hf, ha), t.fmul(hf, hb)
        x, H_, h_ = [t.sym('sep%d' % i, 'f') for i in range(D)], t.sym('H', 'f'), t.sym('h', 'f')
        part = lambda c, lim: t.ite(t.fle(ab(c), lim), z, t.fsub(ab(c), lim))
        P = [part(c, h_) for c in x]
        lhs = [t.fle(z, H_), t.fle(z, h_), t.fle(dot(x, x), t.fmul(t.fadd(H_, h_), t.fadd(H_, h_)))]
        ck.ob(nm('part of a separation beyond h is at most H when the separation is at most H + h'), lambda: steps(P, x, H_, h_, lhs, D), None)
        ins = lambda q: t.subst(q, dict([(H_, H), (h_, h)] + list(zip(x, sep))))
        Ps = [ins(q) for q in P]
        gaps = [t.ite(t.flt(a[i], v['a'][i]), t.fsub(v['a'][i], a[i]), t.ite(t.flt(v['b'][i], a[i]), t.fsub(a[i], v['b'][i]), z)) for i in range(D)]
        bx = box(v['a'], v['b'], b, hb)
        ck.ob(nm('gap between a point and the box is at most that part, along every axis'),
              lambda: all(real.Ctx().valid(t.and_(t.fle(z, g_), t.fle(g_, p_)), bx + pre[:2], 30000) is True for g_, p_ in zip(gaps, Ps)) or None, None)
        run = Run(w, nat, 't_sphere_box', [o['a'], o['b'], o['x'], ha], ('i', 1))
        g = [t.sym('gap%d' % i, 'f') for i in range(D)]
        q = [t.sym('part%d' % i, 'f') for i in range(D)]
        ck.ob(nm('gap to the box is at most the smoothing length'),
              lambda: real.Ctx().valid(t.fle(dot(g, g), t.fmul(ha, ha)), pre[:2] + [t.fle(dot(q, q), t.fmul(H, H))] + [c for x_, y_ in zip(g, q)
                                       for c in (t.fle(z, x_), t.fle(x_, y_), t.fle(t.fmul(x_, x_), t.fmul(y_, y_)))], 30000), None)
        ck.valid_ob(nm('sphere test keeps every point whose gap to the box is at most the radius'), run, ['ret'], yes,
                    [t.fle(z, ha)] + [t.fle(v['a'][i], v['b'][i]) for i in range(D)] + [t.fle(norm(gaps), ha)], hk, n=400, n_self=10, direct=True)
        # the tests by distance: triangle inequality
        u, n_ = [t.sym('u%d' % i, 'f') for i in range(D)], [t.sym('n%d' % i, 'f') for i in range(D)]
        ck.ob(nm('triangle inequality'), lambda: triangle(u, n_, D), None)
        C, e = v['c'], v['y']
        more = lambda p_, q_: t.ite(t.flt(p_, q_), q_, p_)
        tri = [t.fle(norm(vsub(e, C)), t.fadd(norm(vsub(a, e)), norm(vsub(a, C)))), t.fle(z, norm(vsub(e, C))), t.fle(z, norm(vsub(a, C)))]

        def h2(name, idx, g):
            mm = re.match(r'([cxy])\+(\d+)$', name)
            if mm:
                k, i = mm.group(1), int(mm.group(2)) // 8
                if k == 'y':
                    return g.env['*'](a[i]) + g.env['*'](more(ha, hb)) * g.rng.uniform(-1, 1) / D ** .5
                return g.f()
            if name in 'RL':
                d_ = g.env['*'](norm(vsub(a, C)))
                return (d_ + (0 if name == 'R' else g.env['*'](ha))) * (1 + 1e-9) + (g.pos() if g.rng.random() < .4 else 0.)
            return abs(g.f())
        near_ = [t.fle(z, ha), t.fle(z, hb), t.fle(norm(vsub(a, e)), more(ha, hb)), t.fle(norm(vsub(a, C)), R), t.fle(t.fadd(norm(vsub(a, C)), ha), L)]
        for what, args in (('particle against cell: a test with the larger of length and reach, plus radius, keeps every pair within the larger length',
                            [o['y'], o['c'], t.fadd(more(hb, L), R)]),):
            run = Run(w, nat, 't_within_distance2', args, ('i', 1))
            ck.valid_ob(nm(what), run, ['ret'], yes, near_, h2, facts=tri, n=400, n_self=10, direct=True)


def triangle(u, v, D):
    """|u + v| <= |u| + |v|: Lagrange's identity, Cauchy-Schwarz, expansion"""
    N, M, S, Q, P = (t.sym(x, 'f') for x in 'NMSQP')
    z = t.fc(0.0)
    cross = z
    for i in range(D):
        for j in range(i):
            c = t.fsub(t.fmul(u[i], v[j]), t.fmul(u[j], v[i]))
            cross = t.fadd(cross, t.fmul(c, c))
    ok = lambda g, f: real.Ctx().valid(g, f, 30000)
    sm = [t.fadd(x, y) for x, y in zip(u, v)]
    two = t.fc(2.0)
    r = [ok(t.feq(t.fadd(t.fmul(dot(u, v), dot(u, v)), cross), t.fmul(dot(u, u), dot(v, v))), []),
         ok(t.fle(z, cross), []),
         ok(t.feq(dot(sm, sm), t.fadd(t.fadd(dot(u, u), dot(v, v)), t.fmul(two, dot(u, v)))), []),
         # S = u.v, N = |u|, M = |v|, Q = |u + v|
         ok(t.fle(S, t.fmul(N, M)), [t.fle(z, N), t.fle(z, M), t.fle(z, P), t.feq(t.fadd(t.fmul(S, S), P), t.fmul(t.fmul(N, N), t.fmul(M, M)))]),
         ok(t.fle(Q, t.fadd(N, M)), [t.fle(z, N), t.fle(z, M), t.fle(z, Q), t.fle(S, t.fmul(N, M)),
                                      t.feq(t.fmul(Q, Q), t.fadd(t.fadd(t.fmul(N, N), t.fmul(M, M)), t.fmul(two, S)))])]
    return True if all(x is True for x in r) else (None, str(r))


def ab(c):
    return t.ite(t.flt(c, t.fc(0.0)), t.fneg(c), c)


def steps(P, x, H, h, lhs, D):
    """sum P_i^2 <= H^2 by the norm N of P: N <= sum P_i, and the separation is
    at least N + h when any part is positive"""
    z = t.fc(0.0)
    N = t.sym('N', 'f')
    q = [t.sym('q%d' % i, 'f') for i in range(D)]
    ok = lambda goal, fs: real.Ctx().valid(goal, fs, 30000)
    nn = [t.fle(z, H), t.fle(z, h), t.fle(z, N)]
    for mask in range(1 << D):
        defs, tot = [], z
        for i in range(D):
            if mask >> i & 1:
                defs += [t.fle(h, ab(x[i])), t.feq(q[i], t.fsub(ab(x[i]), h)), t.fle(z, q[i])]
                tot = t.fadd(tot, t.fmul(t.fadd(q[i], h), t.fadd(q[i], h)))
            else:
                defs += [t.fle(ab(x[i]), h), t.feq(q[i], z)]
        r = [ok(t.feq(P[i], q[i]), nn + defs) for i in range(D)]
        if mask:
            sm = q[0]
            for y in q[1:]:
                sm = t.fadd(sm, y)
            qs = [t.fle(z, y) for y in q] + [t.feq(q[i], z) for i in range(D) if not mask >> i & 1]
            nq = nn + qs + [t.feq(t.fmul(N, N), dot(q, q))]
            sq = lambda y: t.fmul(t.fadd(y, h), t.fadd(y, h))
            r += [ok(t.fle(tot, dot(x, x)), nn + defs), ok(t.fle(N, sm), nq), ok(t.fle(t.fmul(N, h), t.fmul(sm, h)), nn + [t.fle(N, sm)]),
                  ok(t.fle(sq(N), tot), nq + [t.fle(N, sm), t.fle(t.fmul(N, h), t.fmul(sm, h))]),
                  ok(t.fle(N, H), nn + [t.fle(sq(N), sq(H))]),
                  ok(t.fle(t.fmul(N, N), t.fmul(H, H)), nn + [t.fle(N, H)])]
        if any(y is not True for y in r):
            return None, 'case %d: %s' % (mask, r)
    return True


BOUND = ('generated particle sets of 1 to 2500 particles (uniform, grouped, lattice, stretched, power law, two separated parts; '
         'equal, mixed and extreme smoothing lengths), compared with a loop over all pairs')

if __name__ == '__main__':
    main('P09', body)
