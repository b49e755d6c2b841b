"""the distributed sort and the start of an iteration"""
from hydrolib import *
import procs

BOUND = ('generated inputs: 1 to 2000 elements per process, equal and unequal counts, keys random, few, all equal, sorted, reversed, mostly equal; '
         'iterations of 3 to 402 particles, three steps each, similar and mixed smoothing lengths, with and without motion')


def body(ck):
    ck.level = 'other'
    guarded(ck, 'range', deduct)
    X = procs.exes({**{d: ('iter.cc', d, ()) for d in (1, 2, 3)}, 'asan': ('iter.cc', 3, ('-fsanitize=address',))})
    s0 = (ck.seed - 1) * 100000
    k = 4 if ck.thorough else 1
    procs.sweep(ck, 'distributed sort, 1 to 7 processes',
                [('%d processes' % np, X[3], [s0 + 1000 * np, 300 * k, 'psort'], np) for np in range(1, 8)]
                + [('%d processes, memory checked' % np, X['asan'], [s0 + 20000 + 1000 * np, 60 * k, 'psort'], np) for np in (1, 2, 4, 7)], BOUND)
    procs.sweep(ck, 'start of an iteration, 1 to 7 processes',
                [('%dD, %d processes' % (d, np), X[d], [s0 + 500 * np + d, 45 * k, 'iter'], np) for np in range(1, 8) for d in (1, 2, 3)], BOUND)


def guarded(ck, what, f):
    try:
        f(ck)
    except (sx.Unsupported, build.BuildError) as e:
        ck.notes.append('NOT PROVED: %s: %s' % (what, e))


def comm(ex, st, args, ins):
    ex.store(st, args[1], t.sym('comm', 32), ('i', 32))
    return t.bv(0, 32)


def deduct(ck):
    ck.build([(d, 'range.cc', d, ()) for d in (1, 2, 3)])
    ck.assume('machine arithmetic read as real arithmetic (range of the particles)')
    ck.assume('MPI_Allreduce gives every process the reduction of the values of all processes')
    one = t.bv(1, 64)
    for D in (1, 2, 3):
        m = ck.mod(D)
        F = fields(m, D)
        nm = lambda s: '%dD %s' % (D, s)
        H = Hydro(ck, m, ck.nat(D), D, F)
        H.remote = REMOTE
        w = H.w
        s, bs, r = w.out('sys', 4096), w.vec('bs', BODY), w.out('r', 16 * D)
        run = H.run('w_range', [s, bs, r])
        run.ex.contracts.update({'@MPI_Comm_size': comm, '@MPI_Comm_rank': comm, '@MPI_Allreduce': allreduce_n})
        n = w.vecs['bs']['n']
        pre = [t.ult(t.bv(0, 64), n)]
        hook = lambda name, idx, g: max(1, g.rng.randint(1, 4)) if name == str(n.d) else None

        def ends(kind, d, k=None):
            x = lambda k: w.elem('bs', k, F['pos'][d])
            h = lambda k: w.elem('bs', k, F['radius'])
            i, acc = t.sym('ispec', 64, 2 ** 31 - 2), t.sym('aspec', 'f')
            e = t.fadd(x(i), h(i)) if kind == 'max' else t.fsub(x(i), h(i))
            c = t.flt(acc, e) if kind == 'max' else t.flt(e, acc)
            # the position of a particle lies between the two ends, so it may start the search
            return t.fold_(x(t.sub(n, one)), n, t.ite(c, e, acc), i, acc)
        for d in range(D):
            for k, kind in enumerate(('min', 'max')):
                ck.equal_ob(nm('%s of the range in direction %d is that of position %s smoothing length over all particles' % (kind, d, '-+'[k])),
                            run, (r, 8 * (k * D + d)), t.uf('all' + kind, (ends(kind, d),), 'f'), pre=pre, hook=hook, regs=mpiregs(), n=200)
        H = Hydro(ck, m, ck.nat(D), D, F)
        H.remote = REMOTE
        w = H.w
        bs = w.vec('bs', BODY)
        import ctypes
        f = ck.nat(D).lib.t_where
        f.restype = ctypes.c_size_t
        s = w.obj('sys', None, 65536, {}, {f() + 8 * i: sx.NULLP for i in range(3)})
        run = H.run('t_hmax', [s, bs], ir.F64)
        run.ex.contracts.update({'@MPI_Allreduce': allreduce('max')})
        n = w.vecs['bs']['n']
        i, acc = t.sym('ispec', 64, 2 ** 31 - 2), t.sym('aspec', 'f')
        h = w.elem('bs', i, F['radius'])
        ck.equal_ob(nm('largest smoothing length'), run, 'ret',
                    t.uf('allmax', (t.fold_(t.fc(0.0), n, t.ite(t.flt(acc, h), h, acc), i, acc),), 'f'), regs=mpiregs(), n=200)


def allreduce_n(ex, st, args, ins):
    """the same contract for an array of doubles"""
    n = args[2]
    if not n.c:
        raise sx.Unsupported('MPI_Allreduce of %r values' % (n,))
    one = allreduce(None)
    for i in range(n.d):
        p = sx.Ptr(args[1].o, t.add(args[1].off, t.bv(8 * i, 64)) if isinstance(args[1].off, t.T) else args[1].off + 8 * i)
        one(ex, st, [args[0], p, t.bv(1, 32)] + list(args[3:]), ins)
    return t.bv(0, 32)


if __name__ == '__main__':
    main('P30', body)
