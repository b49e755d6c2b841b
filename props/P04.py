"""letters and numbers address the same component; components are stored
apart (generic) or shared exactly by permutations (symmetric)"""
from hydrolib import *
import itertools, math
U = ('i', 64)


def body(ck):
    ck.build([(0, 'tensors.cc', 3, ())])
    m, nat = ck.mod(0), ck.nat(0)
    letters = 'xyzt'

    def values(name, f, nargs, sel, size, lists, nout, judge):
        """the outputs of f at every argument list, by evaluation of the
        symbolic execution; judge(rows) -> None or (which, why)"""
        w = World(m)
        T = w.doubles('T', size)
        args = [t.sym('a%d' % i, 64) for i in range(nargs)]
        o = w.u64s('o', nout)
        run = Run(w, nat, f, [T] + args + [o])

        def one(vals):
            w1 = World(m)
            T1, o1 = w1.doubles('T', size), w1.u64s('o', nout)
            r = Run(w1, nat, f, [T1] + [t.bv(v, 64) for v in vals] + [o1])
            r.exec()
            ck.absorb(r)
            row = []
            for i in sel:
                v = r.cell(o1, 8 * i, U)
                if v.op != 'c':
                    raise real.Unknown('slot not constant: ' + t.show(v, 4))
                row.append(v.d)
            return row, r, o1

        def proof():
            rows = []
            for n_, vals in enumerate(lists):
                row, r, o1 = one(vals)
                if n_ % 7 == 0:
                    ck.tested(r, 1, nmax=1)
                rows.append(row)
            bad = judge(rows)
            return True if bad is None else (False, bad[1])

        def search():
            rows = []
            for vals in lists:
                w1 = World(m)
                T1, o1 = w1.doubles('T', size), w1.u64s('o', nout)
                r = Run(w1, nat, f, [T1] + [t.bv(v, 64) for v in vals] + [o1])
                got = native(r, o1, sel)
                if got is None:
                    return dict(function=f, inputs=dict(indices=vals), observed='process died')
                rows.append(got)
            bad = judge(rows)
            if bad is None:
                return None, len(rows)
            return dict(function=f, inputs=[lists[i] for i in bad[0]], observed=[rows[i] for i in bad[0]], failure=bad[1])
        ck.ob(name, proof, search, backend='exhaustive over the finite index set')

    def native(r, o1, sel):
        def go(note):
            g = Gen(random.Random(1))
            rr, b = r.call_native(g)
            return [b.read(o1, 8 * i, U) for i in sel]
        x = isolated(go)
        return x[1] if x[0] == 'ok' else None

    # numbering of the letter names
    w = World(m)
    o = w.u64s('o', 4 + 16 + 64 + 256)
    run = Run(w, nat, 'w_names', [o])
    at = 0
    for R in (1, 2, 3, 4):
        tup = list(itertools.product(range(4), repeat=R))
        for k, ix in enumerate(tup):
            want = 0
            for d in ix:
                want = 4 * want + d
            names = ''.join(letters[d] for d in ix)
            ck.equal_ob('name %s stands for the digits %s in base 4' % (names, ix), run, (o, 8 * at, U), t.bv(want, 64), n_self=1, n=6)
            at += 1
    # where components live
    for D in (1, 2, 3, 4):
        for S, ranks in (('g', (1, 2, 3, 4)), ('s', (2, 3, 4))):
            for R in ranks:
                tup = list(itertools.product(range(D), repeat=R))
                cnt = D ** R if S == 'g' else math.comb(D + R - 1, R)
                kind = 'generic' if S == 'g' else 'symmetric'
                nm = '%s rank %d dimension %d: ' % (kind, R, D)
                lists = []
                for ix in tup:
                    k = 0
                    for d in ix:
                        k = 4 * k + d
                    lists.append([k] + list(ix) + [0] * (4 - R))

                def agree(rows, tup=tup):
                    for i, r in enumerate(rows):
                        if not (r[0] == r[1] == r[2]):
                            return [i], 'letters %d, numbers %d, numbers (const) %d for %s' % (r[0], r[1], r[2], tup[i])

                def size(rows, cnt=cnt):
                    for i, r in enumerate(rows):
                        if r[1] != cnt:
                            return [i], 'size() is %d, %d components' % (r[1], cnt)
                        if r[0] >= cnt:
                            return [i], 'slot %d of %d' % (r[0], cnt)

                def apart(rows, tup=tup, S=S):
                    seen = {}
                    for i, r in enumerate(rows):
                        c = tup[i] if S == 'g' else tuple(sorted(tup[i]))
                        if c in seen and rows[seen[c]] != r:
                            return [seen[c], i], 'permuted indices live apart'
                        seen.setdefault(c, i)
                    slots = {}
                    for c, i in seen.items():
                        if rows[i][0] in slots:
                            return [slots[rows[i][0]], i], 'different components share a slot'
                        slots[rows[i][0]] = i
                f = 'w_slot_%s%d%d' % (S, R, D)
                values(nm + 'letters and numbers reach the same component', f, 5, (0, 1, 2), cnt, lists, 5, agree)
                values(nm + 'component count, every slot inside it', f, 5, (1, 4), cnt, lists, 5, size)
                values(nm + ('components stored apart' if S == 'g' else 'components shared exactly by permutations'), f, 5, (1,), cnt, lists, 5, apart)

                def flat(rows, cnt=cnt):
                    for i, r in enumerate(rows):
                        if r != [i, i]:
                            return [i], 'flat component %d: %s' % (i, r)
                values(nm + 'flat access is the i-th stored component', 'w_flat_%s%d%d' % (S, R, D), 1, (0, 1), cnt, [[i] for i in range(cnt)], 4, flat)
    for n in ('23', '32', '14', '234', '421', '3243'):
        dims = [int(c) for c in n]
        tup = list(itertools.product(*[range(d) for d in dims]))
        cnt = len(tup)

        def apart(rows, cnt=cnt, tup=tup):
            slots = {}
            for i, r in enumerate(rows):
                if r[0] != r[1] or r[2] != cnt or r[0] >= cnt or r[0] in slots:
                    return [i], 'index %s: slots %s, count %d' % (tup[i], r, cnt)
                slots[r[0]] = i
        values('generic dimensions %s: components stored apart, all counted' % 'x'.join(n), 'w_mixed_' + n, 4, (0, 1, 2), cnt,
               [list(ix) + [0] * (4 - len(ix)) for ix in tup], 3, apart)


if __name__ == '__main__':
    main('P04', body)
