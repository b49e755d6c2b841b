"""tensor and vector algebra acts component by component; the geometric
functions are the textbook ones"""
from hydrolib import *
N = dict(v1=1, v2=2, v3=3, v4=4, g23=6, g33=9, s3=6, s333=10)
U = ('i', 64)


def body(ck):
    ck.build([(0, 'tensors.cc', 3, ())])
    m, nat = ck.mod(0), ck.nat(0)
    ck.assume('machine arithmetic read as real arithmetic')
    s = t.sym('s', 'f')
    for n, k in N.items():
        def mk(f, args, ret=None):
            w = World(m)
            a, b = w.doubles('a', k), w.doubles('b', k)
            o = w.doubles('o', k)
            d = dict(a=a, b=b, o=o, s=s)
            A = [w.get(a, 8 * i) for i in range(k)]
            B = [w.get(b, 8 * i) for i in range(k)]
            return Run(w, nat, 'a_%s_%s' % (f, n), [d[x] for x in args], ret), d, A, B

        def each(what, f, args, out, spec, pre=(), keep='ab'):
            run, d, A, B = mk(f, args)
            for i in range(k):
                ck.equal_ob('%s: %s, component %d' % (n, what, i), run, (d[out], 8 * i), spec(A[i], B[i]), pre, hook, rel=1e-12, scale=0, n=40, n_self=6)
            for x in keep:
                if x in args and x != out:
                    I = A if x == 'a' else B
                    ck.ob('%s: %s leaves the operand %s unchanged' % (n, what, x),
                          lambda: (all(run.cell(d[x], 8 * i) is I[i] for i in range(k)) or None), lambda: ck.search_terms(
                              run, [((lambda r, bf, i=i: bf.read(d[x], 8 * i, ir.F64)), I[i]) for i in range(k)], hook, pre, n=40, rel=0, scale=0))

        def hook(name, idx, g):
            if name == 's':
                return g.rng.choice([.5, -2.0, 3.25, g.rng.uniform(.1, 4)])
            if name[:2] in ('a+', 'b+') and g.rng.random() < .15:
                return 0.0
        nz = [t.not_(t.feq(s, t.fc(0.0)))]
        each('sum', 'add', 'abo', 'o', lambda a, b: t.fadd(a, b))
        each('difference', 'sub', 'abo', 'o', lambda a, b: t.fsub(a, b))
        each('times a scalar on the right', 'mulr', 'aso', 'o', lambda a, b: t.fmul(a, s))
        each('times a scalar on the left', 'mull', 'aso', 'o', lambda a, b: t.fmul(a, s))
        each('divided by a scalar', 'div', 'aso', 'o', lambda a, b: t.fdiv(a, s), nz)
        each('divided by a scalar (const)', 'divc', 'aso', 'o', lambda a, b: t.fdiv(a, s), nz)
        each('+= tensor', 'iadd', 'ab', 'a', lambda a, b: t.fadd(a, b))
        each('-= tensor', 'isub', 'ab', 'a', lambda a, b: t.fsub(a, b))
        each('+= scalar', 'iadds', 'as', 'a', lambda a, b: t.fadd(a, s))
        each('-= scalar', 'isubs', 'as', 'a', lambda a, b: t.fsub(a, s))
        each('*= scalar', 'imuls', 'as', 'a', lambda a, b: t.fmul(a, s))
        each('/= scalar', 'idivs', 'as', 'a', lambda a, b: t.fdiv(a, s), nz)
        each('+= itself', 'iaddx', 'a', 'a', lambda a, b: t.fadd(a, a))
        each('-= itself', 'isubx', 'a', 'a', lambda a, b: t.fsub(a, a))
        each('= itself', 'asgx', 'a', 'a', lambda a, b: a)
        each('= tensor', 'asg', 'ab', 'a', lambda a, b: b)
        each('= scalar', 'asgs', 'as', 'a', lambda a, b: s)
        each('copy', 'copy', 'bo', 'o', lambda a, b: b)
        each('filled with a scalar', 'fill', 'so', 'o', lambda a, b: s)

        def hq(name, idx, g):
            # mostly equal components
            if name[:2] == 'a+':
                return g.rng.choice([0.0, 1.0, -2.5])
            if name[:2] == 'b+':
                i = int(name[2:])
                if g.mode < .85:
                    j = g.env['*'](t.sym('which', 64, k))
                    if j * 8 != i:
                        return g.env['*'](by['a+%d' % i])
                return g.rng.choice([0.0, 1.0, -2.5])
            if name == 'which':
                return g.rng.randint(0, k)
        for f, pol in (('eq', True), ('ne', False)):
            run, d, A, B = mk(f, 'ab', U)
            by = {str(x.d): x for x in A}
            same = t.and_(*[t.feq(x, y) for x, y in zip(A, B)])
            want = t.ite(same if pol else t.not_(same), t.bv(1, 64), t.bv(0, 64))
            ck.equal_ob('%s: %s compares all components' % (n, '==' if pol else '!='), run, 'ret', want, (), hq, n=200, n_self=30)
    # constructors from values
    for n, k in N.items():
        for v in 'iv1':
            if '@c%s_%s' % (v, n) not in m.funcs:
                continue
            kk = 1 if v == '1' else k
            w = World(m)
            x, o = w.doubles('x', kk), w.doubles('o', k)
            run = Run(w, nat, 'c%s_%s' % (v, n), [x, o])
            X = [w.get(x, 8 * i) for i in range(kk)]
            for i in range(k):
                ck.equal_ob('%s: constructed from %s, component %d' % (n, {'i': 'a braced list', 'v': 'arguments', '1': 'a list of one (fills)'}[v], i), run,
                            (o, 8 * i), X[i if kk > 1 else 0], n=40, n_self=6)
    # geometry
    for k in (1, 2, 3):
        n = 'v%d' % k

        def mk(f, args='ab', ret=ir.F64):
            w = World(m)
            a, b, o = w.doubles('a', k), w.doubles('b', k), w.doubles('o', k)
            d = dict(a=a, b=b, o=o)
            return Run(w, nat, 'e_%s_%s' % (f, n), [d[x] for x in args], ret), o, [w.get(a, 8 * i) for i in range(k)], [w.get(b, 8 * i) for i in range(k)]
        nm = lambda s: '%dD %s' % (k, s)

        def len_(x):
            return t.fn('fabs', x[0]) if k == 1 else t.fn('sqrt', dot(x, x))
        kw = dict(rel=1e-9, scale=1e-6, n=200, n_self=10)
        run, o, A, B = mk('distance')
        ck.equal_ob(nm('distance is the length of the difference'), run, 'ret', len_(vsub(A, B)), **kw)
        run, o, A, B = mk('dot')
        ck.equal_ob(nm('dot is the sum of products'), run, 'ret', dot(A, B), **kw)
        run, o, A, B = mk('mag', 'a')
        ck.equal_ob(nm('magnitude is the square root of the sum of squares'), run, 'ret', len_(A), **kw)
        run, o, A, B = mk('mid', 'abo', None)
        for i in range(k):
            ck.equal_ob(nm('midpoint, component %d' % i), run, (o, 8 * i), t.fmul(t.fc(.5), t.fadd(A[i], B[i])), **kw)

        def cr(A, B):
            if k < 3:
                return [t.fc(0.0)] * k
            return [t.fsub(t.fmul(A[(i + 1) % 3], B[(i + 2) % 3]), t.fmul(A[(i + 2) % 3], B[(i + 1) % 3])) for i in range(3)]
        run, o, A, B = mk('cross', 'abo', None)
        for i in range(k):
            ck.equal_ob(nm('cross product, component %d' % i), run, (o, 8 * i), cr(A, B)[i], **kw)
        run, o, A, B = mk('crossm')
        if k == 1:
            w_ = t.fc(0.0)
        elif k == 2:
            w_ = t.fn('fabs', t.fsub(t.fmul(A[0], B[1]), t.fmul(A[1], B[0])))
        else:
            w_ = len_(cr(A, B))
        ck.equal_ob(nm('cross magnitude'), run, 'ret', w_, **kw)
        if k > 1:
            run, o, A, B = mk('normal', 'abo', None)
            sp = cr(A, B) if k == 3 else [t.fsub(A[1], B[1]), t.fsub(B[0], A[0])]
            for i in range(k):
                ck.equal_ob(nm('normal, component %d' % i), run, (o, 8 * i), sp[i], **kw)
        # centroid of any number of points
        w = World(m)
        pts = w.vec('P', ('a', k, ir.F64))
        o = w.doubles('o', k)
        run = Run(w, nat, 'e_centroid_' + n, [pts, o])
        nn = w.vecs['P']['n']
        j = t.sym('jspec', 64, 2 ** 31 - 2)
        for i in range(k):
            tot = t.sum_(t.fc(0.0), nn, w.elem('P', j, 8 * i), j)
            ck.equal_ob(nm('centroid is the mean of any number of points, component %d' % i), run, (o, 8 * i), t.fdiv(tot, t.uitofp(nn)),
                        [t.ult(t.bv(0, 64), nn)], nmax=6, **kw)


if __name__ == '__main__':
    main('P05', body)
