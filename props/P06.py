"""the geometric predicates of the tree mean what they say"""
from hydrolib import *
BOOL = ('i', 1)
TOL = 1e-14


def body(ck):
    ck.build([(d, 'tree.cc', d, ()) for d in (1, 2, 3)])
    ck.assume('machine arithmetic read as real arithmetic')
    ck.assume('the code\'s own tolerance (10 machine epsilons) is allowed: a predicate may also hold when the bound is exceeded by at most 1e-14')
    z = t.fc(0.0)
    for D in (1, 2, 3):
        m, nat = ck.mod(D), ck.nat(D)
        nm = lambda s: '%dD %s' % (D, s)

        def mk(f, pts, scal=(), order=None, ret=BOOL):
            w = World(m)
            o = {p: w.doubles(p, D) for p in pts}
            v = {p: [w.get(o[p], 8 * i) for i in range(D)] for p in pts}
            s = {x: t.sym(x, 'f') for x in scal}
            args = [o[x] if x in o else s[x] for x in (order or list(pts) + list(scal))]
            return Run(w, nat, f, args, ret), v, s

        def d2(a, b):
            x = vsub(a, b)
            return dot(x, x)

        def dist(a, b):
            return norm(vsub(a, b))

        def off(q, c):
            """natively, inputs within rounding of the boundary are not judged;
            exact ties (the common case of the quarter grid) are"""
            a = t.fn('fabs', q)
            return lambda r: t.or_(t.and_(t.flt(z, a), t.fle(a, t.fc(1e-12))), c(r))

        def near(q, tol=TOL):
            """result iff q <= 0, up to the tolerance"""
            c = lambda r: t.and_(t.implies(t.fle(q, z), r), t.implies(r, t.fle(q, t.fc(tol))))
            return c, off(q, c)

        def iff(c_, q):
            c = lambda r: t.and_(t.implies(c_, r), t.implies(r, c_))
            return c, off(q, c)

        def pred(name, run, conds, pre=(), hook=None, edge=None):
            h0 = hook or hk

            def h(name, idx, g):
                # a tenth of the samples sits just off the deciding surface
                if name == 'r' and edge is not None and g.mode >= .9:
                    x = ev(edge, g)
                    return x + g.rng.choice((-1, 1)) * 10.0 ** g.rng.uniform(-11, -1) * max(1.0, abs(x))
                return h0(name, idx, g)
            ck.valid_ob(nm(name), run, ['ret'], conds[0], list(pre), h, slack=conds[1], n=1500, n_self=20, direct=True)

        def hk(name, idx, g):
            x = g.rng.randint(-3, 3) / 4 if g.mode < .3 else g.rng.randint(-12, 12) / 4 if g.mode < .6 else g.f()
            return abs(x) if name in ('r', 's', 'u', 'A') else x
        run, v, _ = mk('t_distance2', 'ab', ret=ir.F64)
        ck.equal_ob(nm('squared distance'), run, 'ret', d2(v['a'], v['b']), (), hk)
        run, v, s = mk('t_within_distance2', 'ab', 'r')
        q = t.fsub(d2(v['a'], v['b']), t.fmul(s['r'], s['r']))
        pred('within_distance2 iff squared distance <= squared radius', run, iff(t.fle(q, z), q), edge=dist(v['a'], v['b']))
        for f, sc in (('t_within', 'ru'), ('t_within1', 'r')):
            run, v, s = mk(f, 'ab', sc)
            pred('within iff distance <= radius' + (' (default second radius)' if sc == 'r' else ''), run, near(t.fsub(dist(v['a'], v['b']), s['r'])), edge=dist(v['a'], v['b']))
        run, v, s = mk('t_within_square', 'ab', 'ru')
        q = t.fsub(dist(v['a'], v['b']), t.ite(t.flt(s['r'], s['u']), s['u'], s['r']))
        pred('within_square iff distance <= larger radius', run, near(q), edge=dist(v['a'], v['b']))
        # box membership: inside -> true, outside -> false; the low faces are left open in 2D and 3D
        run, v, s = mk('t_within_box', 'lhx', 'r')
        inside = t.and_(*[c for i in range(D) for c in (t.flt(v['l'][i], v['x'][i]), t.fle(v['x'][i], v['h'][i]))])
        out = t.or_(*[c for i in range(D) for c in (t.flt(v['x'][i], v['l'][i]), t.flt(v['h'][i], v['x'][i]))])
        cnd = lambda r: t.and_(t.implies(inside, r), t.implies(out, t.not_(r)))
        pred('within_box inside and outside', run, (cnd, cnd))
        run, v, s = mk('t_box_box', 'abcd')
        meet = t.and_(*[c for i in range(D) for c in (t.fle(v['a'][i], v['d'][i]), t.fle(v['c'][i], v['b'][i]))])
        cnd = lambda r: t.and_(t.implies(meet, r), t.implies(r, meet))
        pred('boxes intersect iff they overlap along every axis', run, (cnd, cnd))
        run, v, s = mk('t_sphere_sphere', 'ab', 'rs', 'arbs')
        pos = [t.fle(z, s['r']), t.fle(z, s['s'])]
        pred('spheres intersect iff distance <= sum of radii', run, near(t.fsub(dist(v['a'], v['b']), t.fadd(s['r'], s['s']))), pos, edge=t.fsub(dist(v['a'], v['b']), s['s']))
        run, v, s = mk('t_sphere_box', 'lhc', 'r')
        pos = [t.fle(z, s['r'])] + [t.fle(v['l'][i], v['h'][i]) for i in range(D)]

        def gap(i):
            l, h, c = v['l'][i], v['h'][i], v['c'][i]
            return t.ite(t.flt(c, l), t.fsub(l, c), t.ite(t.flt(h, c), t.fsub(c, h), z))

        def hb(name, idx, g):
            mm = re.match(r'h\+(\d+)$', name)
            if mm:
                return g.env['*'](v['l'][int(mm.group(1)) // 8]) + abs(hk('x', None, g))
            return hk(name, idx, g)
        pred('sphere meets box iff the nearest point of the box is within the radius', run, near(t.fsub(norm([gap(i) for i in range(D)]), s['r'])), pos, hb, edge=norm([gap(i) for i in range(D)]))
        run, v, s = mk('t_mac', 'ab', 'rsA', 'arbsA')
        q = t.fsub(t.fadd(s['r'], s['s']), t.fmul(s['A'], dist(v['a'], v['b'])))
        pred('opening criterion iff radii < angle * distance', run, iff(t.flt(q, z), q), edge=t.fsub(t.fmul(s['A'], dist(v['a'], v['b'])), s['s']))
        run, v, s = mk('t_box_mac', 'pqlh', 'A')
        dd = dist(v['p'], v['q'])
        pos = [t.flt(z, dd)]
        diag = dist(v['l'], v['h'])

        q = t.fsub(diag, t.fmul(s['A'], dd))
        c = lambda r: t.and_(t.implies(t.flt(q, z), r), t.implies(r, t.fle(q, t.fmul(t.fc(TOL), dd))))
        pred('box opening criterion iff diagonal < angle * distance', run, (c, off(q, c)), pos)


if __name__ == '__main__':
    main('P06', body)
