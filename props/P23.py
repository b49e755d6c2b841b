"""images of particles in a periodic box"""
from hydrolib import *
import procs

BOUND = ('generated inputs: 1 to 600 particles, 1 to 3 dimensions, every combination of periodic directions, box sides 0.1 to 10, '
         'halo up to half the smallest side, particles inside, at and beyond the boundary, equal and unequal counts per process, '
         'two rounds each with moved particles and images mixed in between')


def body(ck):
    ck.level = 'other'
    try:
        deduct(ck)
    except (sx.Unsupported, build.BuildError) as e:
        ck.notes.append('NOT PROVED: corners: %s' % e)
    X = procs.exes({d: ('pbound.cc', d, ()) for d in (1, 2, 3)})
    s0 = (ck.seed - 1) * 100000
    k = 5 if ck.thorough else 1
    procs.sweep(ck, 'images in a periodic box, 1 to 7 processes',
                [('%dD, %d processes' % (d, np), X[d], [s0 + 1000 * np + d, 200 * k, 'x'], np) for np in (1, 2, 3, 4, 7) for d in (1, 2, 3)], BOUND)


def deduct(ck):
    ck.build([(d, 'corner.cc', d, ()) for d in (2, 3)])
    ck.assume('machine arithmetic read as real arithmetic (images in corners)')
    ck.assume('std::vector::push_back is taken with room left for one element')
    for D, fn, ds in ((2, 'w_c01', (0, 1)), (3, 'w_c01', (0, 1)), (3, 'w_c02', (0, 2)), (3, 'w_c21', (2, 1)), (3, 'w_c012', (0, 1, 2))):
        m = ck.mod(D)
        F = fields(m, D)
        nm = lambda s: '%dD corner %s: %s' % (D, ''.join('xyz'[d] for d in ds), s)
        w = World(m)
        on = w.obj('on', None, D, {i: ('i', 8) for i in range(D)})
        box = w.doubles('box', 2 * D)
        h = w.doubles('h', 1)
        b = w.obj('b', BODY)
        sz = m.size(w.ty(BODY))
        back = w.obj('back', BODY)
        e = w.obj('e', None, 24, {}, {0: sx.Ptr(back, 0), 8: sx.Ptr(back, 0), 16: sx.Ptr(back, sz)})
        run = Run(w, ck.nat(D), fn, [on, box, h, b, e], ('i', 64))
        flag = [w.get(on, d, ('i', 8)) for d in range(D)]
        lo, hi = ([w.get(box, 8 * (k * D + d)) for d in range(D)] for k in (0, 1))
        x = [w.get(b, F['pos'][d]) for d in range(D)]
        hh = w.get(h, 0)
        on1 = [t.eq(f, t.bv(1, 8)) for f in flag]
        near = [t.flt(hi[d], t.fadd(x[d], hh)) for d in range(D)]
        far = [t.fle(t.fsub(x[d], hh), lo[d]) for d in range(D)]
        z = t.fc(0.0)
        pre = [t.or_(c, t.eq(f, t.bv(0, 8))) for c, f in zip(on1, flag)]
        for d in range(D):
            pre += [t.feq(lo[d], t.fsub(z, hi[d])), t.fle(lo[d], x[d]), t.fle(x[d], hi[d]), t.or_(t.not_(on1[d]), near[d], far[d])]
        pre += [t.fle(z, hh)]

        def hook(name, idx, g):
            if name.startswith('box+'):
                k = int(name[4:]) // 8
                return (1 + .5 * (k % D)) * (-1 if k < D else 1)
            if name.startswith('on+'):
                return int(g.rng.random() < .7)
            if name == 'h+0':
                return g.rng.choice((.3, .7, 1., 2.1)) * g.rng.uniform(.9, 1.1)
            if name in at:
                return g.rng.uniform(-1, 1) * (1 + .5 * at[name])
            return None
        at = {'b+%d' % o: d for d, o in enumerate(F['pos'])}
        all_on = t.and_(*[on1[d] for d in ds])
        ck.valid_ob(nm('an image is added just when all directions are marked'), run, [('ret')],
                    lambda r: t.eq(r, t.ite(all_on, t.bv(1, 64), t.bv(0, 64))), pre=pre, hook=hook)
        for d in range(D):
            L = t.fsub(hi[d], lo[d])
            want = x[d] if d not in ds else t.ite(near[d], t.fsub(x[d], L), t.fadd(x[d], L))
            ck.equal_ob(nm('the image is %s in direction %s' % (('at the place of its original', 'one box length across')[d in ds], 'xyz'[d])),
                        run, (back, F['pos'][d]), want, pre=pre + [all_on], hook=hook)
        tw = m.flatten(w.ty(BODY))
        ck.equal_ob(nm('the image is marked as one'), run, (back, F['type'], dict(tw)[F['type']]), t.bv(1, 32), pre=pre + [all_on], hook=hook)
        for o, ty in tw:
            if o not in F['pos'] and o != F['type'] and ty[0] != 'p':
                ck.equal_ob(nm('the image keeps byte %d of its original' % o), run, (back, o, ty), w.get(b, o, ty), pre=pre + [all_on], hook=hook)


if __name__ == '__main__':
    main('P23', body)
