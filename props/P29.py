"""snapshots and restarts"""
from hydrolib import *
import procs
from P30 import guarded

BOUND = ('1 to 1001 particles with random data, 1 to 4 snapshots with rising iterations, written by 1 to 7 and read by 1 to 7 processes with even and '
         'uneven counts; initial data with and without ids, restarts that write elsewhere and restarts that go on in the same place')


def proofs(ck):
    ck.build([(d, 'snapio.cc', d, ()) for d in (1, 2, 3)])
    ck.assume('contract of HDF5: H5Dwrite stores the buffer at the selected place of the data set of the given name, H5Dread fills it from there')
    ck.assume('contract of MPI_Allgather (number of particles before a process)')
    noop = lambda ex, st, args, ins: t.bv(0, 32)
    I64, I32 = ('i', 64), ('i', 32)
    k, off, c0, c2 = t.sym('at', 64, 2 ** 31 - 2), t.sym('off', 64, 2 ** 31 - 2), None, None
    for D in (1, 2, 3):
        m = ck.mod(D)
        F = fields(m, D)
        nm = lambda s: '%dD %s' % (D, s)

        def start(fn, args, ret=None):
            H = Hydro(ck, m, ck.nat(D), D, F)
            bs = H.w.vec('bs', BODY)
            n = H.w.vecs['bs']['n']
            run = H.run(fn, [bs] + args(H, n), ret)
            run.ex.contracts.update({'@sprintf': noop, '@access': noop})
            E = lambda f, i=None, ty=ir.F64: H.w.elem('bs', k, F[f] if i is None else F[f][i], ty)
            return H, run, n, E
        pre = lambda n: [t.ult(t.bv(0, 64), n), t.ult(n, t.bv(2 ** 31 - 1, 64)), t.ult(k, n)]

        def hook(name, idx, g):
            if name == 'at':
                return g.rng.randint(0, 2)
            if name == 'off':
                return g.rng.randint(0, 3)
            if name.startswith('cnt'):
                return g.rng.randint(0, 50)
            if name in ('bs.%d' % F['type'], 'bs.%d' % F['state']):
                return g.rng.choice([0, 1])
            return None

        def ob(name, H, run, n, where, spec):
            ck.equal_ob(nm(name), run, where, spec, pre=pre(n), hook=hook, regs=H.regs(), n=200)
        # ---- what is written
        Z = t.fc(0.0)
        vec = lambda f: [lambda E, i=i: E(f, i) if i < D else Z for i in range(3)]
        data = dict(zip(('x', 'y', 'z'), vec('pos')))
        data.update(zip(('vx', 'vy', 'vz'), vec('vel')))
        data.update(zip(('ax', 'ay', 'az'), [lambda E, i=i: t.fadd(E('acc', i), E('gacc', i)) if i < D else Z for i in range(3)]))
        data.update({a: (lambda E, b=b: E(b)) for a, b in (('gradV', 'gradv'), ('h', 'radius'), ('rho', 'density'), ('u', 'eint'), ('P', 'pressure'), ('m', 'mass'), (
            'dt', 'dt'), ('traceSS', 'tracess'), ('alpha', 'alpha'), ('divergenceV', 'divv'), ('dDivVdt', 'ddivvdt'), ('trigger', 'trigger'), ('xi', 'xi'))})
        ints = dict(id=lambda E: E('id', ty=I64), neighbors=lambda E: E('neighbors', ty=I64), type=lambda E: E('type', ty=I32), state=lambda E: E('state', ty=I32),
                    rank=lambda E: t.bv(1, 64))
        for ds in list(data) + list(ints):
            o = []

            def args(H, n):
                cnt = H.w.u64s('cnt', 3)
                o.extend([H.w.out('o', 64), H.w.get(cnt, 0, I64), H.w.get(cnt, 16, I64)])
                return [k, o[0], t.bv(3, 32), t.bv(1, 32), cnt]
            H, run, n, E = start('w_write_' + ds, args)
            if ds in data:
                ob('data set %s holds that value of every particle' % ds, H, run, n, (o[0], 56), data[ds](E))
            else:
                v = ints[ds](E)
                ob('data set %s holds that value of every particle' % ds, H, run, n, (o[0], 16, I64), t.sext(v, 64) if v.s < 64 else v)
            if ds in ('x', 'ay', 'id', 'state', 'neighbors'):
                small = [t.ult(c, t.bv(2 ** 31, 64)) for c in o[1:]]
                for where, what, spec in ((0, 'written once', t.bv(1, 64)), (24, 'number of elements of the data set', t.add(n, t.add(o[1], o[2]))),
                                          (32, 'number of elements written', n), (40, 'place of the first element', o[1]), (48, 'number of places', n)):
                    ck.equal_ob(nm('data set %s: %s' % (ds, what)), run, (o[0], where, I64), spec, pre=pre(n) + small, hook=hook, regs=H.regs(), n=200)
        # ---- what is read
        at = lambda a, ty=ir.F64: t.uf('%s[][]+0' % a, (t.add(k, off),), sx.sort_of(ty))
        for ds, f in (('x', 'pos'), ('vx', 'vel')):
            o = []

            def args(H, n):
                tot = t.add(n, off)
                o.append(H.w.out('o', 8 * D))
                return [H.w.array('tmp', ir.F64, t.mul(n, t.bv(D, 64))), off] + [H.w.array('f%d' % i, ir.F64, tot) for i in range(3)] + [k, o[0]]
            H, run, n, E = start('w_read_' + ds, args)
            for i in range(D):
                ob('component %d of %s is read from its place in its data set' % (i, 'the position' if f == 'pos' else 'the velocity'), H, run, n, (o[0], 8 * i), at('f%d' % i))
        for ds in ('m', 'rho', 'h', 'P', 'u', 'dt'):
            H, run, n, E = start('w_read_' + ds, lambda H, n: [H.w.array('tmp', ir.F64, n), off, H.w.array('f', ir.F64, t.add(n, off)), k], ir.F64)
            ob('%s is read from its place in the data set' % ds, H, run, n, 'ret', at('f'))
        for ds in ('type', 'state'):
            H, run, n, E = start('w_read_' + ds, lambda H, n: [H.w.array('tmp', I32, n), off, H.w.array('f', I32, t.add(n, off)), k], I32)
            ob('%s is read from its place in the data set' % ds, H, run, n, 'ret', at('f', I32))
        for miss in (0, 1):
            H, run, n, E = start('w_read_id', lambda H, n: [H.w.array('tmp', I64, n), off, H.w.array('f', I64, t.add(n, off)), k, t.bv(miss, 32)], I64)
            ob('id is its place in the file, from 1, where the file has none' if miss else 'id is read from its place in the data set', H, run, n, 'ret',
               t.add(t.bv(1, 64), t.add(k, off)) if miss else at('f', I64))
        # ---- places of the processes
        for p in range(1, 7 if D == 1 else 1):
            for r in range(p):
                w = World(m)
                o, cnt = w.out('o', 32), w.u64s('cnt', 8)
                mine = t.sym('mine', 64, 2 ** 31)
                run = Run(w, ck.nat(D), 'w_counts', [mine, o, t.bv(p, 32), t.bv(r, 32), cnt])
                c = [mine if i == r else w.get(cnt, 8 * i, I64) for i in range(p)]
                sm = lambda l: sum_bv(l)
                for i, (what, spec) in enumerate((('own particles', mine), ('all particles', sm(c)), ('particles before', sm(c[:r])), ('particles stored', mine))):
                    ck.equal_ob('process %d of %d: %s' % (r, p, what), run, (o, 8 * i, I64), spec, hook=hook, n=100)


def sum_bv(l):
    x = t.bv(0, 64)
    for y in l:
        x = t.add(x, y)
    return x


def body(ck):
    ck.level = 'other'
    guarded(ck, 'data sets', proofs)
    X = procs.exes({d: ('snap.cc', d, ()) for d in (1, 2, 3)})
    s0 = (ck.seed - 1) * 100000
    k = 4 if ck.thorough else 1
    for mode, what in (('single', 'all snapshots in one file'), ('separate', 'one file per snapshot')):
        procs.sweep(ck, what, [('%dD, %d processes' % (d, np), X[d], [s0 + 300 * np + 40 * d, 14 * k, mode], np) for np in (1, 2, 3, 4, 5, 7) for d in (1, 2, 3)], BOUND)


if __name__ == '__main__':
    main('P29', body)
