"""density profiles: mass, density and slope belong together; tables are read
back and interpolated"""
from hydrolib import *
import calculus as cal
import math

Z, ONE = t.fc(0.0), t.fc(1.0)
R, Q = t.sym('r', 'f'), t.sym('q', 'f')
SEL = {'constant', 'parabolic', 'mesa'}


def body(ck):
    ck.build([(d, 'dens.cc', d, ()) for d in (1, 2, 3)])
    ck.assume('machine arithmetic read as real arithmetic; mesa rim width between 0 and 1; break points of the profile left out for the slope')
    for D in (1, 2, 3):
        m, nat = ck.mod(D), ck.nat(D)
        nm = lambda s: '%dD %s' % (D, s)
        for k in ('constant', 'parabolic', 'mesa'):
            analytic(ck, m, nat, D, k, nm)
        if D == 1:
            table(ck, m, nat, nm)
        file_ob(ck, nat, D, nm)


def gl(m):
    return {'@_ZN5param15density_profileE': lambda ex, o: o.init.__setitem__(0, ex.gaddr('@_ZN5param16_density_profileE'))}


def analytic(ck, m, nat, D, k, nm):
    runs = {}
    w = World(m)
    for f in ('rho', 'mass', 'slope'):
        runs[f] = Run(w, nat, 'w_%s_%s' % (f, k), [R, Q], ir.F64, None, gl(m))
    pre = [t.fle(Z, R), t.flt(Z, Q), t.flt(Q, ONE)]
    ins = [t.flt(R, t.fc(.9999) if k == 'mesa' else ONE)]

    def hook(name, idx, g):
        if name == 'q':
            return g.rng.choice([g.rng.uniform(.05, .95), .5, .3])
        if name == 'r':
            return g.rng.choice([g.rng.uniform(0, 1), g.rng.uniform(.9, 1.1), .1])

    def val(f):
        r = runs[f]
        if r.val is None:
            r.exec()
            ck.absorb(r)
        return real.prep(r.val, {})

    def rel(name, fa, fb, mk, pre, bad):
        """term obligation between two of the functions"""
        ra = runs[fa]
        res = {}

        def proof():
            ck.tested(ra, 20, hook=hook, pre=pre)
            ck.tested(runs[fb], 20, hook=hook, pre=pre) if fb else None
            a, b = mk(val(fa), val(fb) if fb else None)
            c = real.Ctx()
            r = c.equal(a, b, pre + cal.interior(a, b))
            return (r, None if r else 'differs: %s' % [t.show(x, 4)[:200] if isinstance(x, t.T) else 0 for x in (c.why or ())])

        def judge(r, bb, g):
            return bad(bb['ret'] if isinstance(bb, dict) else bb, g)
        ck.ob(nm('%s: %s' % (k, name)), proof, lambda: native(ck, runs, hook, pre, bad))
    def join(f):
        ra = runs[f]

        def proof():
            import mpmath
            ck.tested(ra, 20, hook=hook, pre=pre)
            ps = []
            for r_ in (.65, .75):
                x = val(f)
                while True:
                    cs = [c for c in cal.conds(x) if not any(y.op == 'ite' for y in t.walk(*c.a))]
                    if not cs:
                        break
                    x = t.subst(x, {c: (t.TRUE if cal.mp_eval(c, {R: mpmath.mpf(r_), Q: mpmath.mpf(.3)}, mpmath) else t.FALSE) for c in cs})
                ps.append(t.subst(x, {R: t.fsub(ONE, Q)}))
            r = real.Ctx().equal(*ps)
            return r, 'jump at the rim'

        def bad(g, call):
            q = ev(Q, g)
            a, b = call(f, 1 - q - 1e-9, q), call(f, 1 - q + 1e-9, q)
            if abs(a - b) > 1e-6:
                return dict(profile=k, dimension=D, rim=q, inside=a, outside=b)
        ck.ob(nm('%s: %s is continuous at the rim' % (k, f)), proof, lambda: native(ck, runs, hook, pre, bad))

    # derivative of the mass is the density times the area of the sphere
    pw = ONE
    for _ in range(D - 1):
        pw = t.fmul(pw, R)

    def slope_bad(fa, fb, fac):
        def bad(g, call):
            r, q = ev(R, g), ev(Q, g)
            d = [(call(fa, r + h, q) - call(fa, r - h, q)) / (2 * h) for h in (1e-5, 5e-6)]
            if r < 2e-5 or abs(d[0] - d[1]) > 1e-6 * (abs(d[0]) + 1):
                return None
            want = call(fb, r, q) * fac(r)
            if not abs(d[1] - want) < 1e-5 * (abs(want) + 1):
                return dict(profile=k, dimension=D, r=r, rim=q, **{'difference_quotient_of_' + fa: d[1], 'expected_from_' + fb: want})
        return bad
    area = {1: 2.0, 2: 2 * math.pi, 3: 4 * math.pi}[D]
    rel('the mass grows by the area times the density', 'mass', 'rho', lambda a, b: (cal.deriv(a, R), t.fmul(t.fc(area), t.fmul(pw, b))),
        pre + ins, slope_bad('mass', 'rho', lambda r: area * r ** (D - 1)))
    rel('the slope is the derivative of the density', 'rho', 'slope', lambda a, b: (cal.deriv(a, R), b), pre + ins, slope_bad('rho', 'slope', lambda r: 1.0))

    def at(name, f, x, v):
        def bad(g, call):
            got = call(f, x, ev(Q, g))
            if not abs(got - v) < 1e-9:
                return dict(profile=k, dimension=D, r=x, rim=ev(Q, g), value=got, expected=v)
        rel(name, f, None, lambda a, b: (t.subst(a, {R: t.fc(x)}), t.fc(v)), pre, bad)
    at('no mass at the centre', 'mass', 0.0, 0.0)
    at('unit mass in the unit sphere', 'mass', 1.0, 1.0)
    if k != 'constant':
        at('no density at the surface', 'rho', 1.0, 0.0)
    unit = [] if k == 'mesa' else [t.fle(R, ONE)]
    ck.valid_ob(nm('%s: the density is not negative' % k), runs['rho'], ['ret'], lambda v: t.fle(Z, v), pre + unit, hook,
                slack=lambda v: t.fle(t.fc(-1e-9), v))
    if k == 'mesa':
        for f in ('mass', 'rho'):
            join(f)


def table(ck, m, nat, nm):
    """interval search by a loop invariant; interpolation over its contract"""
    x = t.sym('x', 'f')
    w = World(m)
    n = w.length('n_xp', 2 ** 30)
    xp, yp = w.vec('xp', 'f64', n), w.vec('yp', 'f64', n)
    one = lambda v, k: t.bv(v, k)
    i32 = lambda v: t.trunc(v, 32)
    X_ = lambda i: w.elem('xp', t.sext(i, 64), 0)
    Y_ = lambda i: w.elem('yp', t.sext(i, 64), 0)
    N = i32(n)
    last = t.sub(N, t.bv(1, 32))
    some = [t.ult(t.bv(0, 64), n), t.ult(n, t.bv(2 ** 30, 64))]

    def inv(ws):
        """lo < hi bracket x (the ends are allowed to lie on either side)"""
        ids = [i for i, q in enumerate(ws) if q == 32]
        # rotated loops start their body with more than one interval left
        for gap in (t.bv(1, 32), t.bv(0, 32)):
            for a in ids:
                for b in ids:
                    if a == b:
                        continue

                    def pick(vs, a=a, b=b, gap=gap):
                        lo, hi = vs[a], vs[b]
                        return t.and_(t.sle(t.bv(0, 32), lo), t.sle(lo, hi), t.or_(t.slt(gap, t.sub(hi, lo)), t.and_(t.eq(gap, t.bv(0, 32)), t.eq(hi, t.bv(0, 32)))),
                                      t.sle(hi, last), t.or_(t.eq(lo, t.bv(0, 32)), t.not_(t.flt(x, X_(lo)))),
                                      t.or_(t.eq(hi, last), t.flt(x, X_(hi)))), t.sub(hi, lo)
                    yield pick
    ri = Run(w, nat, 'w_interval', [x, xp], ('i', 32))
    ri.ex.invs['get_interval_index'] = inv
    grid = lambda i: .5 * i + .2 * math.sin(3.7 * i)

    def hook(name, idx, g):
        if name == 'n_xp':
            return g.rng.randint(1, 9)
        if name == 'xp[][]+0':
            return grid(idx)
        if name == 'x':
            k = g.rng.randint(0, 9)
            return g.rng.choice([grid(k), g.rng.uniform(-1, 5), grid(k) + 1e-3])

    def spec(r):
        below = t.flt(t.fmul(x, t.fc(1 + 1e-15)), X_(t.bv(0, 32)))
        above = t.flt(X_(last), t.fmul(x, t.fc(1 - 1e-15)))
        inside = t.and_(t.sle(t.bv(0, 32), r), t.or_(t.eq(r, t.bv(0, 32)), t.not_(t.flt(x, X_(r)))),
                        t.ite(t.eq(N, t.bv(1, 32)), t.eq(r, t.bv(0, 32)),
                              t.and_(t.slt(r, last), t.or_(t.eq(r, t.sub(N, t.bv(2, 32))), t.flt(x, X_(t.add(r, t.bv(1, 32))))))))
        return t.ite(below, t.eq(r, t.bv(0xffffffff, 32)), t.ite(above, t.eq(r, last), inside))
    ck.valid_ob(nm('table: the interval found encloses the argument'), ri, ['ret'], spec, some, hook, bits=True, n=400, n_self=0, nmax=9)
    # interpolation, for any answer of the interval search
    wi = t.uf('IV', (x, n), 32)

    def contract(ex, st, args, ins):
        return wi
    name = [f for f in m.funcs if 'get_interval_index' in f]
    for N_, what in ((None, 'cubic'),):
        rc = Run(w, nat, 'w_interp', [x, xp, yp], ir.F64, {f: contract for f in name})
        C4 = [t.sym('c%d' % i, 'f') for i in range(4)]

        def poly(v):
            r = C4[3]
            for q in C4[2::-1]:
                r = t.fadd(t.fmul(r, v), q)
            return r

        def hook2(name, idx, g):
            if name == 'n_xp':
                return g.rng.randint(4, 9)
            if name == 'IV':
                n_ = ev(n, g)
                x_ = ev(x, g)
                if x_ * (1 + 1e-15) < grid(0):
                    return 0xffffffff
                if x_ * (1 - 1e-15) > grid(n_ - 1):
                    return n_ - 1
                return max([i for i in range(n_ - 1) if grid(i) <= x_] or [0])
            if name == 'yp[][]+0':
                q = [ev(y, g) for y in C4]
                v = grid(idx)
                return q[0] + v * (q[1] + v * (q[2] + v * q[3]))
            if name.startswith('c') and len(name) == 2:
                return g.rng.uniform(-2, 2)
            return hook(name, idx, g)
        four = [t.sle(t.bv(4, 32), N), t.ult(n, t.bv(2 ** 31, 64))]
        ins = four + [t.sle(t.bv(0, 32), wi), t.slt(wi, last)]
        ran = four + [t.sle(t.bv(0xffffffff, 32), wi), t.sle(wi, last)]

        def subst_poly(v):
            mp_ = {y: poly(t.uf('xp[][]+0', y.a, 'f')) for y in t.walk(v) if y.op == 'uf' and y.d == 'yp[][]+0'}
            return t.subst(v, mp_)

        def distinct(v):
            xs_ = [y for y in t.walk(v) if y.op == 'uf' and y.d == 'xp[][]+0']
            return xs_
        rd, val = ck.reader(rc, 'ret')

        def cubic():
            ck.tested(rc, 30, hook=hook2, pre=four)
            c = real.Ctx()
            return c.equal(subst_poly(val()), poly(x), ins)

        def judge(r, b, g):
            got, want = rd(r, b), ev(poly(x), g)
            n_ = ev(n, g)
            x_ = ev(x, g)
            if grid(0) <= x_ <= grid(n_ - 1) and not close(got, want, 1e-8, 1e-6):
                return dict(x=x_, points=[grid(i) for i in range(n_)], coefficients=[ev(y, g) for y in C4], interpolated=got, expected=want)
            if (x_ < grid(0) - 1e-9 or x_ > grid(n_ - 1) + 1e-9) and got != 0:
                return dict(x=x_, points=[grid(i) for i in range(n_)], interpolated=got, expected=0.0)
        srch = lambda: ck.sample(rc, judge, hook2, four, 400, 9)
        ck.ob(nm('table: a cubic is reproduced inside the table'), cubic, srch)

        def outside():
            ck.tested(rc, 30, hook=hook2, pre=four)
            c = real.Ctx()
            out = t.or_(t.slt(wi, t.bv(0, 32)), t.eq(wi, last))
            return c.equal(val(), Z, ran + [out])
        ck.ob(nm('table: zero outside the table'), outside, srch)

        def nodes():
            ck.tested(rc, 30, hook=hook2, pre=four)
            c = real.Ctx()
            v = val()
            # the first interval, the last one, any other
            n3 = t.sub(N, t.bv(3, 32))
            iv = t.sym('iv', 32)
            c32 = lambda k: t.bv(k, 32)
            for sub, base, sh, fs in (({wi: c32(0), n: t.bv(4, 64)}, c32(0), 0, []), ({wi: c32(0)}, c32(0), 0, [t.slt(c32(4), N)]),
                                      ({wi: t.sub(N, c32(2))}, n3, 1, []), ({wi: n3}, n3, 0, []),
                                      ({wi: iv}, iv, 0, [t.slt(c32(0), iv), t.slt(iv, n3)])):
                for k in (0, 1):
                    i = t.sext(t.add(base, t.bv(sh + k, 32)), 64)
                    u = t.subst(t.subst(v, sub), {x: t.uf('xp[][]+0', (i,), 'f')})
                    r = c.equal(u, t.uf('yp[][]+0', (i,), 'f'), four + fs)
                    if r is not True:
                        return r, 'node not reproduced: %s' % [t.show(y, 5) for y in (c.why or ()) if isinstance(y, t.T)]
            return True
        ck.ob(nm('table: the points of the table are reproduced'), nodes, lambda: ck.sample(rc, judge_nodes(w, n, grid, rd, x, X_, yp), hook3(hook2), four, 400, 9))


def hook3(h):
    def go(name, idx, g):
        if name == 'yp[][]+0':
            return math.cos(5.3 * idx) + idx
        if name == 'x':
            return h('xp[][]+0', g.rng.randint(0, 9), g)
        return h(name, idx, g)
    return go


def judge_nodes(w, n, grid, rd, x, X_, yp):
    def judge(r, b, g):
        n_, x_ = ev(n, g), ev(x, g)
        for i in range(n_):
            if x_ == grid(i) and not close(rd(r, b), math.cos(5.3 * i) + i, 1e-9, 1e-9):
                return dict(x=x_, points=[grid(i) for i in range(n_)], interpolated=rd(r, b), node=math.cos(5.3 * i) + i)
    return judge


def file_ob(ck, nat, D, nm):
    def search():
        import tempfile, os
        d = tempfile.mkdtemp()
        try:
            rng = random.Random(ck.rng.random())
            n = 0
            for i in range(20):
                k = rng.randint(4, 12)
                rows = [(j + .5 + rng.uniform(-.3, .3), rng.uniform(-2, 2), rng.uniform(-2, 2), rng.uniform(-2, 2)) for j in range(k)]
                f = os.path.join(d, 'p%d' % i)
                with open(f, 'w') as h:
                    h.write('# r rho m drho/dr\n')
                    for j, q in enumerate(rows):
                        if j == 2 and i % 3 == 0:
                            h.write('\n# comment\n')
                        h.write(' %.12g %.7g   %.7g %.7g\n' % q)

                def go(note):
                    for q in rows:
                        note(dict(table=rows, r=q[0]))
                        o = (ctypes.c_double * 3)()
                        r_ = float('%.12g' % q[0])
                        nat.lib.w_file(f.encode(), ctypes.c_double(r_), o)
                        if not all(close(a, b, 1e-5, 1e-5) for a, b in zip(o, q[1:])):
                            return dict(table=rows, r=r_, density_mass_slope=list(o), row=list(q[1:]))
                    o = (ctypes.c_double * 3)()
                    for r_ in (rows[0][0] - .5, rows[-1][0] + .5):
                        note(dict(table=rows, r=r_))
                        nat.lib.w_file(f.encode(), ctypes.c_double(r_), o)
                        if any(o):
                            return dict(table=rows, r=r_, outside_of_the_table=list(o))
                    return k
                r = isolated(go, 60)
                if r[0] != 'ok':
                    return dict(table=rows, observed=str(r)[:300])
                if isinstance(r[1], dict):
                    return r[1]
                n += r[1]
            return None, n
        finally:
            for q in os.listdir(d):
                os.unlink(os.path.join(d, q))
            os.rmdir(d)
    ck.bounded(nm('table read from a file'), search, '20 random tables of 4 to 12 points, every point of the table and one point beyond either end')


def native(ck, runs, hook, pre, bad):
    def go(note):
        n = 0
        for i in range(400):
            g = Gen(ck.rng, hook)
            if not all(ev(c, g) for c in pre):
                continue
            def call(f, r, q):
                fn = runs[f].native.lib[runs[f].fname]
                fn.restype, fn.argtypes = ctypes.c_double, [ctypes.c_double] * 2
                return fn(r, q)
            note(dict(r=ev(R, g), q=ev(Q, g)))
            n += 1
            x = bad(g, call)
            if x:
                return x
        return n
    r = isolated(go, 60)
    if r[0] != 'ok':
        return dict(observed=str(r)[:300])
    return r[1] if isinstance(r[1], dict) else (None, r[1])


if __name__ == '__main__':
    main('P21', body)
