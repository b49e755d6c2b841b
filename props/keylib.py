from hydrolib import *
import smt


class Keys:
    def __init__(self, ck, D):
        self.ck, self.D = ck, D
        self.m, self.nat = ck.mod(D), ck.nat(D)
        self.M = 63 // D
        self.MAX = (1 << self.M) - 1

    def world(self):
        w = World(self.m)
        return w, w.doubles('R', 2 * self.D), w.doubles('p', self.D)

    def run(self, f, extra=(), out=0):
        w, R, p = self.world()
        self.lo = [w.get(R, 8 * j) for j in range(self.D)]
        self.hi = [w.get(R, 8 * (self.D + j)) for j in range(self.D)]
        self.pt = [w.get(p, 8 * j) for j in range(self.D)]
        args = [R, p] + list(extra)
        if out:
            args.append(w.out('o', out))
        return Run(w, self.nat, f, args, ('i', 64) if not out else None), w

    @property
    def pre(self):
        return [c for l, h, p in zip(self.lo, self.hi, self.pt) for c in (t.flt(l, h), t.fle(l, p), t.fle(p, h))]

    def u(self, j):
        return t.fdiv(t.fsub(self.pt[j], self.lo[j]), t.fsub(self.hi[j], self.lo[j]))

    def cellf(self, j):
        return t.fmul(self.u(j), t.fc(float(1 << self.M)))

    def cell(self, j):
        q = t.fptoui(self.cellf(j), 64)
        mx = t.bv(self.MAX, 64)
        return t.ite(t.ult(q, mx), q, mx)

    def qs(self):
        """fresh cell indices"""
        return [t.sym('cell%d' % j, 64, self.MAX) for j in range(self.D)]

    def mkey_of(self, c, d):
        parts = [t.bv(1 << (d * self.D), 64)]
        for k in range(d):
            for j in range(self.D):
                b = t.bvand(t.lshr(c[j], t.bv(self.M - d + k, 64)), t.bv(1, 64))
                parts.append(t.shl(b, t.bv(k * self.D + j, 64)))
        r = parts[0]
        for x in parts[1:]:
            r = t.bvor(r, x)
        return r

    def mkey_spec(self, d):
        return self.mkey_of(self.qs(), d)

    def hook(self, name, idx, g):
        mm = re.match(r'([Rp])\+(\d+)$', name)
        if not mm:
            return None
        k, i = mm.group(1), int(mm.group(2)) // 8
        if k == 'R' and i < self.D:
            return g.rng.choice([-1.0, 0.0, -.3, 2.0, -10.5])
        if k == 'R':
            return g.env['*'](self.lo[i - self.D]) + g.rng.choice([1.0, 2.0, .5, 3.7, 100.0])
        l, h = g.env['*'](self.lo[i]), g.env['*'](self.hi[i])
        u = g.rng.choice([0.0, 1.0, .5, .25, g.rng.random(), g.rng.random(), g.rng.random(), 1 - 2.0 ** -30])
        return min(h, l + u * (h - l))

    # ---- the cell index of the code, recognised up to real equality
    def cells(self, ts):
        """conversions in ts that equal (as reals) the cell coordinate j ->
        replaced by fresh indices (after the clip)"""
        c = real.Ctx()
        q = self.qs()
        raw = [t.sym('raw%d' % j, 64, (1 << self.M)) for j in range(self.D)]
        mm = {}
        for y in t.walk(*ts):
            if y.op in ('fptoui', 'fptosi'):
                for j in range(self.D):
                    if c.equal(y.a[0], self.cellf(j), []) is True:
                        mm[y] = t.trunc(raw[j], y.s) if y.s < 64 else raw[j]
                        break
                else:
                    raise real.Unknown('conversion of something other than the cell coordinate: %s' % t.show(y, 6)[:300])
        ts = [t.subst(x, mm) for x in ts]
        facts = [t.eq(q[j], t.ite(t.ult(raw[j], t.bv(self.MAX, 64)), raw[j], t.bv(self.MAX, 64))) for j in range(self.D)]
        facts += [t.ule(raw[j], t.bv(1 << self.M, 64)) for j in range(self.D)]
        return ts, facts

    def key_ob(self, name, run, spec):
        ck = self.ck
        pre = self.pre
        mp = dict(zip(self.qs(), [self.cell(j) for j in range(self.D)]))
        want = t.subst(spec, mp)

        def proof():
            ck.tested(run, 20, hook=self.hook, pre=pre)
            (v,), facts = self.cells([run.val])
            return smt.valid(t.eq(v, spec), facts, 60000)
        ck.ob(name, proof, lambda: ck.search_terms(run, [(lambda r, b: r, want)], self.hook, pre), backend='z3 bit-vectors')

    def lemma(self, name, c, facts=()):
        def proof():
            fs = list(facts) + [t.ule(x, t.bv(self.MAX, 64)) for x in t.syms(c) if x.s == 64]
            return smt.valid(c, fs, 60000)
        self.ck.ob(name, proof, None, backend='z3 bit-vectors')

    def inj(self, full):
        q = self.qs()
        q2 = [t.sym('other%d' % j, 64, self.MAX) for j in range(self.D)]
        f2 = t.subst(full, dict(zip(q, q2)))
        return t.or_(t.not_(t.eq(full, f2)), t.and_(*[t.eq(a, b) for a, b in zip(q, q2)]))

    def invert_ob(self, name, run, j):
        ck, pre, D = self.ck, self.pre, self.D
        h = t.fdiv(t.fsub(self.hi[j], self.lo[j]), t.fc(float(self.MAX)))
        o = run.w.objs['o']

        def proof():
            ck.tested(run, 20, hook=self.hook, pre=pre)
            v = run.cell(o, 8 * j)
            # integer part: every converted integer in the result is the cell index
            q = self.qs()
            mm = {}
            cell = t.sym('#cell', 'f')
            (v2,), facts = self.cells([v])
            for y in t.walk(v2):
                if y.op in ('uitofp', 'sitofp'):
                    z = t.zext(y.a[0], 64) if y.a[0].s < 64 else y.a[0]
                    if smt.valid(t.eq(z, q[j]), facts, 60000) is not True:
                        return None, 'decoded index differs from the encoded one'
                    mm[y] = cell
            v3 = t.subst(v2, mm)
            # p = lo + u*(hi-lo); cell = min(2^M-1, floor(u*2^M))
            u, W = t.sym('#u', 'f'), t.sym('#W', 'f')
            sub = {self.hi[j]: t.fadd(self.lo[j], W)}
            v3 = t.subst(v3, sub)
            err = t.fsub(v3, t.fadd(self.lo[j], t.fmul(u, W)))
            N = float(1 << self.M)
            x = t.fmul(u, t.fc(N))
            fs = [t.fle(t.fc(0.0), u), t.fle(u, t.fc(1.0)), t.flt(t.fc(0.0), W), t.fle(t.fc(0.0), cell), t.fle(cell, x),
                  t.or_(t.flt(x, t.fadd(cell, t.fc(1.0))), t.feq(cell, t.fc(float(self.MAX)))), t.fle(cell, t.fc(float(self.MAX)))]
            # the error is W times something linear
            e = t.sym('#e', 'f')
            c = real.Ctx()
            lin = t.subst(err, {W: t.fc(1.0), self.lo[j]: t.fc(0.0)})
            if c.equal(err, t.fmul(W, lin), fs) is not True:
                return None, 'not linear in the width'
            b = t.fc(1.0 / self.MAX)
            return c.valid(t.and_(t.fle(t.fneg(b), lin), t.fle(lin, b)), fs)

        def judge(r, b, g):
            got = b.read(o, 8 * j, ir.F64)
            e = abs(got - ev(self.pt[j], g))
            lim = ev(h, g) + 1e-12 * (abs(got) + ev(t.fsub(self.hi[j], self.lo[j]), g))
            return None if e <= lim else dict(observed=got, distance=e, limit=lim)
        ck.ob(name, proof, lambda: ck.sample(run, judge, self.hook, pre), backend='z3 bit-vectors + real arithmetic')

    # ---- boxes
    def bits(self, ts, cands, facts=()):
        """every choice between reals becomes a polynomial in indicator symbols
        of the candidate bits.  cands: [(name, bit term (64 bit, 0/1))]"""
        import random
        conds = []
        for y in t.walk(*ts):
            if y.op == 'ite' and y.s == 'f' and y.a[0] not in conds:
                conds.append(y.a[0])
        vs = sorted(set(x for x in t.syms(*(list(conds) + [b for _, b in cands])) if x.s == 64), key=str)
        rng = random.Random(1)
        envs = [{v: rng.getrandbits(64) % ((getattr(v.d, 'umax', None) or (1 << 64) - 1) + 1) for v in vs} for _ in range(40)]

        memos = [{} for _ in envs]

        def sig(c):
            return tuple(bool(t.evaluate(c, e, None, mo)) for e, mo in zip(envs, memos))
        table = {}
        for n, b in cands:
            table[sig(t.eq(b, t.bv(1, 64)))] = (n, b)
        mm, same = {}, []
        for c in conds:
            s = sig(c)
            neg = False
            if s is not None and s not in table:
                s, neg = tuple(not x for x in s), True
            if s is None or s not in table:
                raise real.Unknown('choice on something other than one bit: %s' % t.show(c, 5)[:200])
            n, b = table[s]
            want = t.eq(b, t.bv(0 if neg else 1, 64))
            same.append(t.and_(t.or_(t.not_(c), want), t.or_(c, t.not_(want))))
            B = t.sym(n, 'f')
            mm[c] = t.fsub(t.fc(1.0), B) if neg else B
        if same and smt.valid(t.and_(*same), list(facts), 60000) is not True:
            raise real.Unknown('choices are not the bits they look like')
        memo = {}

        def go(x):
            st = [x]
            while st:
                y = st[-1]
                if y in memo:
                    st.pop()
                    continue
                ch = y.a[1:] if y.op == 'ite' else y.a
                todo = [z for z in ch if z not in memo]
                if todo:
                    st.extend(todo)
                    continue
                st.pop()
                if y.op == 'ite':
                    p, q, B = memo[y.a[1]], memo[y.a[2]], mm[y.a[0]]
                    memo[y] = t.fadd(q, t.fmul(B, t.fsub(p, q)))
                else:
                    memo[y] = y if not y.a else t.rebuild(y, tuple(memo[z] for z in y.a))
            return memo[x]
        return [go(x) for x in ts]

    def anykey(self, d):
        """a key of depth d with arbitrary digits, and the index bits per direction"""
        v = t.sym('v', 64)
        key = t.bvor(t.bv(1 << (d * self.D), 64), t.bvand(v, t.bv((1 << (d * self.D)) - 1, 64)))
        bit = lambda j, k: t.bvand(t.lshr(v, t.bv(k * self.D + j, 64)), t.bv(1, 64))
        return v, key, bit

    def khook(self, name, idx, g):
        if name == 'v':
            return g.rng.choice([0, (1 << 64) - 1, g.rng.getrandbits(64), g.rng.getrandbits(64)])
        return self.hook(name, idx, g)

    def range_ob(self, d, nm):
        """box of an arbitrary key of depth d"""
        ck, D = self.ck, self.D
        w, R, p = self.world()
        self.lo = [w.get(R, 8 * j) for j in range(D)]
        self.hi = [w.get(R, 8 * (D + j)) for j in range(D)]
        self.pt = []
        v, key, bit = self.anykey(d)
        o = w.out('o', 16 * D)
        run = Run(w, self.nat, 'w_mrange', [R, key, o])
        pre = [t.flt(l, h) for l, h in zip(self.lo, self.hi)]
        for j in range(D):
            W = t.fsub(self.hi[j], self.lo[j])

            def idx():
                r = t.bv(0, 64)
                for k in range(d):
                    r = t.add(r, t.shl(bit(j, k), t.bv(k, 64)))
                return r
            for e in (0, 1):
                off = 8 * (D * e + j)
                scale = 2.0 ** -d
                want = t.fadd(self.lo[j], t.fmul(W, t.fmul(t.fc(scale), t.fadd(t.uitofp(idx()), t.fc(float(e))))))

                def proof(j=j, e=e, off=off, W=W):
                    ck.tested(run, 10, hook=self.khook, pre=pre)
                    (x,) = self.bits([run.cell(o, off)], [('B%d' % k, bit(j, k)) for k in range(d)])
                    spec = self.lo[j]
                    for k in range(d):
                        spec = t.fadd(spec, t.fmul(W, t.fmul(t.fc(2.0 ** (k - d)), t.sym('B%d' % k, 'f'))))
                    if e:
                        spec = t.fadd(spec, t.fmul(W, t.fc(2.0 ** -d)))
                    return real.Ctx().equal(x, spec, [])
                ck.ob(nm('box of a key of depth %d: %s corner, component %d' % (d, ['lower', 'upper'][e], j)), proof,
                      lambda off=off, want=want: ck.search_terms(run, [(lambda r, b: b.read(o, off, ir.F64), want)], self.khook, pre, rel=1e-9, scale=1e-9))
        # and the coordinates of that key
        w2, R2, _ = self.world()
        o2 = w2.out('o', 8 * D)
        run2 = Run(w2, self.nat, 'w_mcoord', [R2, key, o2])
        lo, hi = [w2.get(R2, 8 * j) for j in range(D)], [w2.get(R2, 8 * (D + j)) for j in range(D)]
        for j in range(D):
            ix = t.bv(0, 64)
            for k in range(d):
                ix = t.add(ix, t.shl(bit(j, k), t.bv(k + self.M - d, 64)))
            want = t.fadd(lo[j], t.fmul(t.fsub(hi[j], lo[j]), t.fdiv(t.uitofp(ix), t.fc(float(self.MAX)))))

            def proof2(j=j, ix=ix):
                ck.tested(run2, 10, hook=self.khook, pre=pre)
                x = run2.cell(o2, 8 * j)
                n, mm = t.sym('#ix', 'f'), {}
                for y in t.walk(x):
                    if y.op in ('uitofp', 'sitofp'):
                        z = t.zext(y.a[0], 64) if y.a[0].s < 64 else y.a[0]
                        if smt.valid(t.eq(z, ix), [], 60000) is not True:
                            return None, 'decoded index differs from the key digits'
                        mm[y] = n
                x = t.subst(x, mm)
                if d == 0:
                    n = t.fc(0.0)
                return real.Ctx().equal(x, t.fadd(lo[j], t.fmul(t.fsub(hi[j], lo[j]), t.fdiv(n, t.fc(float(self.MAX))))), [])
            ck.ob(nm('coordinates of a key of depth %d are the lower corner of its box, component %d' % (d, j)), proof2,
                  lambda j=j, want=want: ck.search_terms(run2, [(lambda r, b: b.read(o2, 8 * j, ir.F64), want)], self.khook, pre, rel=1e-9, scale=1e-9))

    def box_ob(self, d, nm):
        """the box of a point's key contains the point"""
        ck, D = self.ck, self.D
        run, w = self.run('w_mbox', [t.bv(d, 64)], out=16 * D)
        o = w.objs['o']
        pre = self.pre
        for j in range(D):
            def proof(j=j):
                ck.tested(run, 10, hook=self.hook, pre=pre)
                xs, facts = self.cells([run.cell(o, 8 * j), run.cell(o, 8 * (D + j))])
                raw, mx = t.sym('raw%d' % j, 64, 1 << self.M), t.bv(self.MAX, 64)
                clip = t.ite(t.ult(raw, mx), raw, mx)
                cand = [('B%d' % k, t.bvand(t.lshr(clip, t.bv(k, 64)), t.bv(1, 64))) for k in range(self.M - d, self.M)]
                a, b = self.bits(xs, cand, facts)
                u, W = t.sym('#u', 'f'), t.sym('#W', 'f')
                a, b = [t.subst(x, {self.hi[j]: t.fadd(self.lo[j], W)}) for x in (a, b)]
                pt = t.fadd(self.lo[j], t.fmul(u, W))
                cell = t.fc(0.0)
                fs = [t.fle(t.fc(0.0), u), t.fle(u, t.fc(1.0)), t.flt(t.fc(0.0), W)]
                for k in range(self.M):
                    B = t.sym('B%d' % k, 'f')
                    fs += [t.fle(t.fc(0.0), B), t.fle(B, t.fc(1.0))]
                    cell = t.fadd(cell, t.fmul(t.fc(2.0 ** k), B))
                x = t.fmul(u, t.fc(2.0 ** self.M))
                fs += [t.fle(cell, x), t.or_(t.flt(x, t.fadd(cell, t.fc(1.0))), t.feq(cell, t.fc(float(self.MAX)))) if self.M < 53 else
                       t.fle(x, t.fadd(cell, t.fc(1.0)))]
                c = real.Ctx()
                for e in (t.fsub(pt, a), t.fsub(b, pt)):
                    lin = t.subst(e, {W: t.fc(1.0), self.lo[j]: t.fc(0.0)})
                    if c.equal(e, t.fmul(W, lin), []) is not True:
                        return None, 'not linear in the width'
                    # linear in the indicators: normal form first
                    n = c.norm(c.prep(lin))
                    zl = c.zrat(n)
                    r = c.check([c.zbool(f) for f in fs] + [zl < 0], 60000)
                    if r != real.z3.unsat:
                        return None if r != real.z3.sat else (False, 'point outside the box')
                return True

            def judge(r, b, g):
                l, h, x = b.read(o, 8 * j, ir.F64), b.read(o, 8 * (D + j), ir.F64), ev(self.pt[j], g)
                eps = 1e-12 * (abs(l) + abs(h))
                return None if l - eps <= x <= h + eps else dict(observed=[l, h], point=x)
            ck.ob(nm('box of the key at depth %d contains the point, component %d' % (d, j)), proof, lambda judge=judge: ck.sample(run, judge, self.hook, pre))
