"""the tree over the particles: state of a cell, structure and summaries of the whole tree"""
from hydrolib import *
import procs
import smt

BOUND = ('generated inputs: 1 to 2500 particles (uniform, lattice, tight groups, stretched, power law, two halves), five kinds of smoothing lengths, '
         'uneven shares of the processes; every cell of the tree of every process is inspected')
b64 = lambda k: t.bv(k, 64)
NAMES = ('children', 'number of children', 'any child', 'shared', 'requested', 'children to receive', 'owner', 'node index', 'entity index', 'key',
         'unset', 'node', 'entity', 'empty node')
CH, NUM, ANY, SH, RQ, RECV, OWN, NODE, ENT, KEY, UNSET, ISN, ISE, EMPTY = range(14)


def body(ck):
    ck.level = 'other'
    try:
        deduct(ck)
    except (sx.Unsupported, build.BuildError) as e:
        ck.notes.append('NOT PROVED: state of a cell: %s' % e)
    X = procs.exes({d: ('walk.cc', d, ('-DCELLS', '-fno-access-control')) for d in (1, 2, 3)})
    s0 = (ck.seed - 1) * 100000
    k = 4 if ck.thorough else 1
    procs.sweep(ck, 'every cell of the tree of every process, 1 to 7 processes',
                [('%dD, %d processes' % (d, np), X[d], [s0 + 1000 * np + d, (90 if np == 1 else 45) * k, 'cells'], np)
                 for np in range(1, 8) for d in (1, 2, 3)], BOUND)


def deduct(ck):
    """every cell that operations can lead to is one made in a fixed order from
    what it answers (induction over the operations), and answers that"""
    ck.build([(d, 'cell.cc', d, ()) for d in (1, 2, 3)])
    CELL = '%class.flecsi::topology::hcell'
    for D in (1, 2, 3):
        m, nat = ck.mod(D), ck.nat(D)
        NC = 1 << D
        lay, pad = m.types[CELL][1], set()
        fl = [o for o, ty in m.flatten(('s', CELL)) if ty == ('i', 8)]
        if lay[-1][0] == 'a' and lay[-1][2] == ('i', 8):
            pad = set(fl[-lay[-1][1]:])
        k, v, rank = t.sym('k', 64), t.sym('v', 64), t.sym('comm', 32)
        i64 = ('i', 64)
        neg = b64((1 << 64) - 1)
        bit = lambda c: t.ite(c, b64(1), b64(0))
        nm = lambda s: '%dD %s' % (D, s)

        def comm(ex, st, args, ins):
            ex.store(st, args[1], rank, ('i', 32))
            return t.bv(0, 32)

        def hook(name, idx, g):
            if name == 'comm':
                return 0
            if name == 'k':
                return g.rng.choice([0, 1, 2, 3, g.rng.randint(0, NC), g.rng.getrandbits(31), (1 << 64) - 1])
            if name == 'v':
                return g.rng.getrandbits(63) + 1
            if name.startswith('s+'):
                o = int(name[2:]) // 8
                return [g.rng.getrandbits(63) + 1, g.rng.getrandbits(NC), g.rng.getrandbits(1), g.rng.getrandbits(1), g.rng.randint(0, NC),
                        g.rng.getrandbits(31), g.rng.choice([(1 << 64) - 1, g.rng.getrandbits(31)]), g.rng.choice([(1 << 64) - 1] * 2 + [g.rng.getrandbits(31)])][o]
            return None

        def pop(x):
            r = b64(0)
            for i in range(NC):
                r = t.add(r, t.bvand(t.lshr(x, b64(i)), b64(1)))
            return r

        def answers(key, mask, shared, requested, recv, owner, node, entity):
            un = t.and_(t.eq(node, neg), t.eq(entity, neg))
            nd = t.not_(t.eq(node, neg))
            two = lambda c: t.ite(un, b64(2), bit(c))
            num = pop(mask)
            return [mask, num, bit(t.not_(t.eq(mask, b64(0)))), shared, requested, recv, owner, node, entity, key, bit(un), two(nd), two(t.not_(nd)),
                    two(t.and_(nd, t.or_(t.eq(mask, b64(0)), t.ult(num, recv))))]
        idx = lambda x: t.or_(t.eq(x, neg), t.ult(x, b64(1 << 31)))

        def check(what, fn, args, w, spec, pre):
            A, x, y = w.out('a', 8 * 14), w.obj('x', CELL), w.obj('y', CELL)
            run = Run(w, nat, fn, args + [A, x, y])
            run.ex.contracts['@MPI_Comm_rank'] = comm
            for i in range(14):
                ck.equal_ob(nm('%s: %s' % (what, NAMES[i])), run, (A, 8 * i, i64), spec[i], pre=pre, hook=hook)
            vs = [(ck.reader(run, (x, o, ty))[1], ck.reader(run, (y, o, ty))[1]) for o, ty in m.flatten(w.ty(CELL)) if o not in pad]

            def same():
                ck.tested(run, 20, hook=hook, pre=pre)
                # another representation is no violation, only the end of this argument
                return smt.valid(t.and_(*[t.eq(a(), b()) for a, b in vs]), pre, 60000) or None
            ck.ob(nm('%s leaves the cell that the fixed order makes' % what), same, backend='z3 bit-vectors')

        def setter(fn, what, new, pre=lambda s: []):
            w = World(m)
            o = w.u64s('s', 8)
            s = [w.get(o, 8 * i, i64) for i in range(8)]
            p = [t.ult(s[1], b64(1 << NC)), t.ule(s[2], b64(1)), t.ule(s[3], b64(1)), t.ule(s[4], b64(NC)), t.ult(s[5], b64(1 << 31)), idx(s[6]), idx(s[7]),
                 t.or_(t.eq(s[6], neg), t.eq(s[7], neg))]
            s2 = list(s)
            for i, x in new(s).items():
                s2[i] = x
            check(what, fn, [o, k], w, answers(*s2), p + pre(s))
        setter('w_nothing', 'a cell', lambda s: {})
        setter('w_add_child', 'add_child', lambda s: {1: t.bvor(s[1], t.shl(b64(1), k))}, lambda s: [t.ult(k, b64(NC))])
        setter('w_set_shared', 'set_shared', lambda s: {2: b64(1)})
        setter('w_set_requested', 'set_requested', lambda s: {3: b64(1)})
        setter('w_unset_requested', 'unset_requested', lambda s: {3: b64(0)})
        setter('w_set_nchildren', 'set_nchildren_to_receive', lambda s: {4: k}, lambda s: [t.ule(k, b64(NC))])
        setter('w_set_owner', 'set_owner', lambda s: {5: k}, lambda s: [t.ult(k, b64(1 << 31))])
        setter('w_set_node', 'set_node_idx of a cell that is no particle', lambda s: {6: k}, lambda s: [idx(k), t.eq(s[7], neg)])
        setter('w_set_entity', 'set_entity_idx of a cell that is no node', lambda s: {7: k}, lambda s: [idx(k), t.eq(s[6], neg)])
        z = b64(0)
        mine = t.sext(rank, 64)
        check('a new cell', 'w_new', [v, k], World(m), answers(v, z, z, z, z, mine, neg, neg), [])
        check('a new cell of a particle', 'w_new_entity', [v, k], World(m), answers(v, z, z, z, z, mine, neg, k), [t.ult(k, b64(1 << 31))])
        for fn, args, what, spec in (('w_mine', [v, k], 'this process owns a cell exactly when it is set as its owner', bit(t.eq(t.trunc(k, 32), rank))),
                                     ('w_new_mine', [v], 'a new cell is owned by this process', b64(1)),
                                     ('w_new_entity_mine', [v, k], 'a new cell of a particle is owned by this process', b64(1))):
            run = Run(World(m), nat, fn, args, i64)
            run.ex.contracts['@MPI_Comm_rank'] = comm
            ck.equal_ob(nm(what), run, 'ret', spec, pre=[t.ult(k, b64(1 << 31))], hook=hook)


if __name__ == '__main__':
    main('P07', body)
