"""Hilbert keys: one key per cell, inverted by coordinates, unit steps, nesting"""
from keylib import *
import aig

b64 = lambda k: t.bv(k, 64)


def conv(x):
    return [y for y in t.walk(x) if y.op in ('uitofp', 'sitofp')]


def wide(x):
    return t.zext(x, 64) if x.s < 64 else x


def body(ck):
    ck.build([(d, 'keys.cc', d, ()) for d in (1, 2, 3)])
    ck.assume('the cell index of a coordinate is the integer part of (p-min)/(max-min)*2^M, arithmetic on coordinates read as real')
    for D in (1, 2, 3):
        KS = Keys(ck, D)
        M, MAX = KS.M, KS.MAX
        nm = lambda s: '%dD %s' % (D, s)
        raw = [t.sym('raw%d' % j, 64, 1 << M) for j in range(D)]
        clip = [t.ite(t.ult(r, b64(MAX)), r, b64(MAX)) for r in raw]
        bias = {(r.id, M): False for r in raw}.get

        # ---- coordinates(key(p)) is the low corner of the cell of p
        run, w = KS.run('w_hround', out=8 * D)
        o = w.objs['o']
        st = {}

        def cells_of():
            if 'v' not in st:
                ck.tested(run, 20, hook=KS.hook, pre=KS.pre)
                vs, _ = KS.cells([run.cell(o, 8 * j) for j in range(D)])
                ns, out = [], []
                for j, v in enumerate(vs):
                    c = conv(v)
                    if len(c) != 1:
                        raise real.Unknown('coordinate %d is not computed from one index' % j)
                    ns.append(wide(c[0].a[0]))
                    out.append(t.subst(v, {c[0]: t.sym('#cell', 'f')}))
                st['v'] = ns, out
            return st['v']

        def rt():
            ns, _ = cells_of()
            s = {}
            r = aig.equal(ns, clip, bias, stat=s)
            ck.note_sweep('%dD decode(encode)' % D, s)
            return r

        def corner(j):
            return t.fadd(KS.lo[j], t.fmul(t.fsub(KS.hi[j], KS.lo[j]), t.fdiv(t.uitofp(KS.cell(j)), t.fc(float(1 << M)))))

        def judge(r, b, g):
            for j in range(D):
                got, want = b.read(o, 8 * j, ir.F64), ev(corner(j), g)
                W = ev(KS.hi[j], g) - ev(KS.lo[j], g)
                if abs(got - want) > W * 2.0 ** (1 - M) + 1e-12 * (abs(want) + W):
                    return dict(component=j, observed=got, low_corner=want)
            return None
        lo0, hi0, pt0, pre0 = KS.lo, KS.hi, KS.pt, KS.pre

        def srch():
            KS.lo, KS.hi, KS.pt = lo0, hi0, pt0
            return ck.sample(run, judge, KS.hook, pre0)
        ck.ob(nm('decoding the key of a cell gives back the cell, for every cell (keys are one to one)'), rt, srch, backend='SAT sweeping (z3)')
        for j in range(D):
            def lowc(j=j):
                _, out = cells_of()
                want = t.fadd(lo0[j], t.fmul(t.fsub(hi0[j], lo0[j]), t.fdiv(t.sym('#cell', 'f'), t.fc(float(1 << M)))))
                return real.Ctx().equal(out[j], want, [])
            ck.ob(nm('the coordinates are the low corner of that cell, component %d' % j), lowc, srch, backend='exact normal forms')

        # ---- keys of any depth are prefixes of the deepest one
        full, _ = KS.run('w_hkey_full')
        for d in range(M + 1):
            rd, _ = KS.run('w_hkey', [b64(d)])
            lo1, hi1, pt1, pre1 = KS.lo, KS.hi, KS.pt, KS.pre

            def pf(rd=rd, full=full, d=d, pre1=pre1, z=(lo1, hi1, pt1)):
                KS.lo, KS.hi, KS.pt = z
                ck.tested(rd, 5, hook=KS.hook, pre=pre1)
                (a, b), _ = KS.cells([rd.val, full.val])
                want = t.lshr(b, b64((M - d) * D))
                return True if a is want else aig.equal([a], [want], bias)

            def ps(rd=rd, full=full, d=d, pre1=pre1, z=(lo1, hi1, pt1)):
                KS.lo, KS.hi, KS.pt = z
                want = t.lshr(full.val, b64((M - d) * D))
                return ck.search_terms(rd, [(lambda r, b: r, want)], KS.hook, pre1)
            ck.ob(nm('the key at depth %d is a prefix of the deepest key' % d), pf, ps, backend='bit vectors')

        def lead():
            (a,), _ = KS.cells([full.val])
            return aig.equal([t.lshr(a, b64(M * D))], [b64(1)], bias)
        ck.ob(nm('the deepest key has one leading one and M digits'), lead,
              lambda: ck.search_terms(full, [(lambda r, b: r >> (M * D), b64(1))], KS.hook, pre0), backend='SAT sweeping (z3)')

        # ---- neighbours along the curve
        w, R, _ = KS.world()
        v = t.sym('v', 64)
        top = 1 << (M * D)
        key = t.bvor(b64(top), t.bvand(v, b64(top - 1)))
        o1 = w.out('o', 8 * D)
        run1 = Run(w, ck.nat(D), 'w_hcoord', [R, key, o1])
        w2, R2, _ = KS.world()
        a1, a2 = w2.out('o', 8 * D), w2.out('q', 8 * D)
        nxt = Run(w2, ck.nat(D), 'w_hstep', [R2, key, a1, a2])
        lo, hi = [w.get(R, 8 * j) for j in range(D)], [w.get(R, 8 * (D + j)) for j in range(D)]
        pre = [t.flt(x, y) for x, y in zip(lo, hi)]
        lo2, hi2 = [w2.get(R2, 8 * j) for j in range(D)], [w2.get(R2, 8 * (D + j)) for j in range(D)]
        prev = [t.flt(x, y) for x, y in zip(lo2, hi2)] + [t.not_(t.eq(t.bvand(v, b64(top - 1)), b64(top - 1)))]
        ones = lambda k: (1 << k) - 1

        def khook(name, idx, g):
            if name == 'v':
                base = g.rng.getrandbits(64)
                k = g.rng.randint(0, M) * D
                return g.rng.choice([base, base | ones(k), base | ones(k), 0]) & (top - 1)
            mm = re.match(r'R\+(\d+)$', name)
            if mm:
                return 0.0 if int(mm.group(1)) // 8 < D else float(1 << M)
            return None

        def jstep(r, b, g):
            p, q = [b.read(a1, 8 * j, ir.F64) for j in range(D)], [b.read(a2, 8 * j, ir.F64) for j in range(D)]
            dist = sum(abs(x - y) for x, y in zip(p, q))
            return None if dist == 1 or max(p + q) > 2.0 ** 52 and abs(dist - 1) <= 2 ** (M - 52) else dict(observed=[p, q], distance_in_cells=dist)
        step_search = lambda: ck.sample(nxt, jstep, khook, prev)

        def decoded():
            if 'd' not in st:
                ck.tested(run1, 20, hook=khook, pre=pre)
                ns = []
                for j in range(D):
                    c = conv(run1.cell(o1, 8 * j))
                    if len(c) != 1:
                        raise real.Unknown('coordinate %d is not computed from one index' % j)
                    ns.append(wide(c[0].a[0]))
                st['d'] = ns
            return st['d']

        def table():
            """per digit: sub-cube and the signed permutation applied inside it,
            read off the decoded cells of all two-digit prefixes"""
            if 'T' in st:
                return st['T']
            ns = decoded()
            cell = lambda x: tuple(t.evaluate(n, {v: x}) >> (M - 2) for n in ns)
            N = 1 << D
            two = {(d, e): cell((d << ((M - 1) * D)) | (e << ((M - 2) * D))) for d in range(N) for e in range(N)}
            corner = [tuple(c >> 1 for c in two[d, 0]) for d in range(N)]
            T = []
            import itertools
            for d in range(N):
                for p in itertools.permutations(range(D)):
                    for f in itertools.product((0, 1), repeat=D):
                        if all(tuple(corner[e][p[j]] ^ f[j] for j in range(D)) == tuple(c & 1 for c in two[d, e]) for e in range(N)):
                            T.append((corner[d], p, f))
                            break
                    else:
                        continue
                    break
                else:
                    raise real.Unknown('digit %d does not act as a rotation or reflection of the sub-cube' % d)
            st['T'] = T
            return T

        def stepf(T, dig, P, k):
            """cell inside the sub-cube of digit dig, of size 2^k"""
            m = b64(ones(k))
            r = [b64(0)] * D
            for d, (c, p, f) in enumerate(T):
                img = [t.add(t.sub(m, P[p[j]]) if f[j] else P[p[j]], b64(c[j] << k)) for j in range(D)]
                r = [t.ite(t.eq(dig, b64(d)), a, b) if d else a for a, b in zip(img, r)]
            return r

        def rec():
            T = table()
            P = [b64(0)] * D
            for k in range(M):
                dig = t.bvand(t.lshr(v, b64(k * D)), b64((1 << D) - 1))
                P = stepf(T, dig, P, k)
            s = {}
            r = aig.equal(decoded(), P, stat=s)
            ck.note_sweep('%dD decode' % D, s)
            return r
        ck.ob(nm('decoding follows one recursion: each digit selects a sub-cube and a rotation or reflection inside it'), rec, step_search, backend='SAT sweeping (z3)')

        def adj(a, b):
            """differ by one in exactly one component"""
            eq = [t.eq(x, y) for x, y in zip(a, b)]
            one = [t.or_(t.eq(t.add(x, b64(1)), y), t.eq(t.add(y, b64(1)), x)) for x, y in zip(a, b)]
            return t.or_(*[t.and_(*([one[j]] + [eq[i] for i in range(D) if i != j])) for j in range(D)])

        def ends():
            """first and last cell of the curve of k levels stay the corners"""
            T = table()
            for d in (0, -1):
                c, p, f = T[d]
                if tuple(c[p[j]] ^ f[j] for j in range(D)) != c:
                    return False
            return True
        ck.ob(nm('the curve of every size starts and ends in fixed corners'), ends, step_search, backend='evaluation')
        for k in range(M):
            def inside(k=k):
                T = table()
                A, Bv = [t.sym('a%d' % j, 64) for j in range(D)], [t.sym('b%d' % j, 64) for j in range(D)]
                dig = t.sym('dig', 64)
                fs = [t.ult(x, b64(1 << k)) for x in A + Bv] + [t.ult(dig, b64(1 << D))]
                p, q = stepf(T, dig, A, k), stepf(T, dig, Bv, k)
                r1 = smt.valid(t.and_(*([t.implies(adj(A, Bv), adj(p, q))] + [t.ult(x, b64(2 << k)) for x in p])), fs, 60000)
                if r1 is not True:
                    return r1
                # between consecutive digits
                first = [b64(c * ones(k)) for c in T[0][0]]
                last = [b64(c * ones(k)) for c in T[-1][0]]
                return smt.valid(adj(stepf(T, dig, last, k), stepf(T, t.add(dig, b64(1)), first, k)), [t.ult(dig, b64((1 << D) - 1))], 60000)
            ck.ob(nm('consecutive keys that first differ at level %d from the end, or above it, decode to cells sharing a face' % k), inside, step_search, backend='z3 bit-vectors')


if __name__ == '__main__':
    main('P02', body)
