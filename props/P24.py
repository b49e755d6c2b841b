"""lattices of particles for initial data"""
from hydrolib import *
import procs
from P30 import guarded

BOUND = ('generated inputs: all lattices and domains, boxes of 1 to 100 (1D), 1 to 40 (2D), 1 to 15 (3D) separations with and without points on the upper sides, '
         'centred and not, first index 0 to 20; random lattices centred')


def body(ck):
    ck.level = 'other'
    guarded(ck, 'domains', domains)
    X = procs.exes({**{d: ('lat.cc', d, ()) for d in (1, 2, 3)}, 'asan': ('lat.cc', 3, ('-fsanitize=address',))})
    s0, k = (ck.seed - 1) * 100000, 10 if ck.thorough else 1
    procs.sweep(ck, 'whole lattices', [('%dD' % d, X[d], [s0 + 10000 * i, 700 * k, 'lat'], 1) for d in (1, 2, 3) for i in range(2)]
                + [('3D, memory checked', X['asan'], [s0 + 90000, 100 * k, 'lat'], 1)], BOUND)


def domains(ck):
    """in_domain_Dd: the box with its lower sides and without its upper ones, or the ball inside it"""
    ck.build([(d, 'lattice.cc', d, ()) for d in (1, 2, 3)])
    ck.assume('machine arithmetic read as real arithmetic (domains)')
    for D in (1, 2, 3):
        m = ck.mod(D)
        w = World(m)
        x = [t.sym('xyz'[i], 'f') for i in range(D)]
        if D == 1:
            lo, hi = [t.sym('a', 'f')], [t.sym('b', 'f')]
            args = x + [lo[0], hi[0]]
        else:
            a = w.obj('a', None, 8 * D, {8 * i: ir.F64 for i in range(D)}, {})
            b = w.obj('b', None, 8 * D, {8 * i: ir.F64 for i in range(D)}, {})
            lo, hi = [w.get(a, 8 * i) for i in range(D)], [w.get(b, 8 * i) for i in range(D)]
            args = x + [a, b]
        dom = t.sym('dom', 32)
        run = Run(w, ck.nat(D), 'w_in%d' % D, args + [dom], ('i', 32), {}, {})
        dx = t.fmul(t.fc(1e-6), t.fsub(hi[0], lo[0]))
        cs = []
        for i in range(D):
            cs += [t.flt(t.fsub(lo[i], dx), x[i]), t.flt(x[i], t.fsub(hi[i], dx))]
        box = t.and_(*cs)
        lims = [(t.fsub(l, dx), t.fsub(h, dx)) for l, h in zip(lo, hi)]
        ball = t.TRUE
        if D > 1:
            s = t.fsub(lims[0][1], lims[0][0])
            for l, h in lims[1:]:
                s2 = t.fsub(h, l)
                s = t.ite(t.flt(s2, s), s2, s)
            r = t.fmul(t.fc(.5), s)
            q = [t.fsub(x[i], t.fmul(t.fc(.5), t.fadd(*lims[i]))) for i in range(D)]
            ball = t.flt(dot(q, q), t.fmul(r, r))
        pre = [t.flt(l, h) for l, h in zip(lo, hi)] + [t.ult(dom, t.bv(2, 32))]

        def hook(name, idx, g):
            if name == 'dom':
                return g.rng.choice([0, 1])
            return None
        for k, (what, want) in enumerate((('box', box), ('ball', t.and_(box, ball)))):
            if D == 1 and k:
                continue
            p = pre + ([t.eq(dom, t.bv(k, 32))] if D > 1 else [])
            h = (lambda k: lambda name, idx, g: k if name == 'dom' else None)(k) if D > 1 else hook
            ck.valid_ob('%dD points of the %s' % (D, what), run, ['ret'],
                        lambda v, want=want: t.ite(want, t.eq(v, t.bv(1, 32)), t.eq(v, t.bv(0, 32))), p, h)


if __name__ == '__main__':
    main('P24', body)
