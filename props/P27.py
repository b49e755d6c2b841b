"""relaxation of particles to a prescribed profile (weighted Voronoi method)"""
from hydrolib import *
import math
import procs
from P30 import guarded
from P25 import reduction, regs as redregs
from P13 import positive

Z, ONE, TWO, HALF = t.fc(0.0), t.fc(1.0), t.fc(2.0), t.fc(.5)
fa, fs, fm, fd = t.fadd, t.fsub, t.fmul, t.fdiv


def text_at(ex, st, p):
    s = ''
    for i in range(64):
        c = ex.load(st, p.add(i), ('i', 8))
        if not c.c:
            raise sx.Unsupported('text that is not constant')
        if c.d == 0:
            return s
        s += chr(c.d)
    raise sx.Unsupported('long text')


class Wvt(Hydro):
    bc = 0

    def iequals(self, ex, st, args, ins):
        """contract of the comparison of the boundary parameter with a constant text"""
        s = text_at(ex, st, args[1]).lower()
        k = {'reflective': 1, 'frozen': 2}.get(s)
        if k is None:
            raise sx.Unsupported('comparison with %r' % s)
        return t.TRUE if self.bc == k else t.FALSE

    def prof(self, ex, st, args, ins):
        return t.uf('PROF', args, 'f')

    def contracts(self):
        d = {**Hydro.contracts(self), '@PROF': self.prof, '@same_text': self.iequals,
             '@MPI_Allreduce': counts}
        return d

    def globals(self):
        d = dict(Hydro.globals(self))
        txt = sx.Obj('boundary-text', 16, 'undef')
        pb = [n for n in self.m.globals if re.search(r'^@_ZN5paramL?12wvt_boundaryE$', n)]
        pr = [n for n in self.m.globals if re.search(r'^@_ZN16density_profilesL?25spherical_density_profileE$', n)]
        for n in pb:
            d[n] = {0: sx.Ptr(txt, 0)}
        for n in pr:
            d[n] = {0: sx.Fn('@PROF')}
        return d

    def bind(self, nat, gen):
        Hydro.bind(self, nat, gen)
        nat.lib.t_profile()
        nat.lib.t_boundary(self.bc)

    def regs(self):
        return {**Hydro.regs(self), **redregs(), **ANGLES, 'PROF': lambda r: 1.0 / (1.0 + r * r)}


def body(ck):
    ck.level = 'other'
    guarded(ck, 'relaxation', formulas)
    X = procs.exes({d: ('wvtrun.cc', d, ()) for d in (2, 3)})
    s0, k = (ck.seed - 1) * 100000, 4 if ck.thorough else 1
    procs.sweep(ck, 'displacement and convergence, 1 to 5 processes',
                [('%dD, %d processes' % (d, np), X[d], [s0 + 1000 * np + d, 150 * k, 'relax'], np) for np in (1, 2, 3, 5) for d in (2, 3)],
                'generated inputs: 3 to 42 particles, steps from tiny to many times the radius, before and during the cool-down, both choices of the smoothing length')


def trig(ts):
    """polar angles, off the axis: cos(atan2(y,x)) = x/sqrt(x^2+y^2), sin(acos(z/r)) = sqrt(r^2-z^2)/r"""
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        a = tuple(go(y) for y in x.a)
        r = x if a == x.a else t.rebuild(x, a)
        if r.op == 'fn' and r.d in ('cos', 'sin') and r.a[0].op == 'fn':
            i = r.a[0]
            if i.d == 'atan2':
                y_, x_ = i.a
                h = t.fn('sqrt', fa(fm(x_, x_), fm(y_, y_)))
                r = fd(x_ if r.d == 'cos' else y_, h)
            elif i.d == 'acos':
                q = i.a[0]
                if r.d == 'cos':
                    r = q
                elif q.op == 'fdiv' and q.a[1].op == 'fn' and q.a[1].d == 'sqrt':
                    r = fd(t.fn('sqrt', fs(q.a[1].a[0], fm(q.a[0], q.a[0]))), q.a[1])
        memo[x] = r
        return r
    return [go(x) for x in ts]


def polar(ts, roots=False):
    """sine and cosine of the polar angles as functions of the position (that they are the direction of the point is
    the obligation on the round trip)"""
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        a = tuple(go(y) for y in x.a)
        r = x if a == x.a else t.rebuild(x, a)
        if r.op == 'fn' and r.d in ('cos', 'sin') and r.a[0].op == 'fn' and r.a[0].d in ('atan2', 'acos'):
            i = r.a[0]
            r = i.a[0] if (r.d, i.d) == ('cos', 'acos') else t.uf(r.d + i.d, i.a, 'f')
        if roots and r.op == 'fn' and r.d == 'sqrt':
            r = t.uf('ROOT', r.a, 'f')
        memo[x] = r
        return r
    return [go(x) for x in ts]


ANGLES = {'cosatan2': lambda y, x: math.cos(math.atan2(y, x)), 'sinatan2': lambda y, x: math.sin(math.atan2(y, x)),
          'sinacos': lambda q: math.sin(math.acos(q)) if abs(q) <= 1 else float('nan')}


def formulas(ck):
    ck.build([(d, 'wvt.cc', d, ('-I%s/stub/text' % build.VERIF,)) for d in (2, 3)])
    ck.assume('machine arithmetic read as real arithmetic; sine and cosine of polar angles by their definition, particles off the polar axis')
    ck.assume('contracts of the selected kernel and density profile (functions of their arguments), boost::iequals, MPI_Allreduce')
    for D in (2, 3):
        one(ck, D)
        relax(ck, D)


def one(ck, D):
    m, nat = ck.mod(D), ck.nat(D)
    F = fields(m, D)
    nm = lambda s: '%dD %s' % (D, s)
    par = lambda n, s='f': param(m, n, s)
    R, S, ngb, eta = par('wvt_radius'), par('sphere_radius'), par('wvt_ngb'), par('sph_eta')
    wid = gsym(m, r'^@_ZN7kernelsL?12kernel_widthE$')

    def mk(fn, args=None, ret=None, bc=0):
        H = Wvt(ck, m, nat, D, F)
        H.bc = bc
        a = args(H) if args else None
        return H, H.run(fn, a, ret)

    def hk(H, more=None):
        base = H.hook()

        def h(name, idx, g):
            if more:
                r = more(name, idx, g)
                if r is not None:
                    return r
            if name[:3] == 'nb.' and int(name[3:]) in F['pos']:
                return g.rng.uniform(-3, 3)
            if re.search('wvt_radius|sphere_radius|wvt_ngb|sph_eta|kernel_width|rho_initial', name):
                return g.rng.uniform(.5, 4)
            return base(name, idx, g)
        return h
    # ---- coordinates
    H, run = mk('w_round', lambda H: [H.w.out('o', 8 * D), H.w.doubles('x', D)])
    o = run.args[0] if hasattr(run, 'args') else None
    o, X = H.w.objs['o'], H.w.objs['x']
    x = [H.w.get(X, 8 * i) for i in range(D)]
    off = [t.flt(Z, fa(fm(x[0], x[0]), fm(x[1], x[1])))] if D > 1 else []
    for i in range(D):
        spec = x[i] if D > 1 else t.fn('fabs', x[0])
        ck.equal_ob(nm('polar coordinates and back give the point again, component %d' % i), run, (o, 8 * i), spec, off, hk(H), H.regs(), real.Ctx,
                    abst=lambda ts: (trig(ts), []))
    # ---- tangential part
    H, run = mk('w_tangential', lambda H: [H.w.out('o', 8 * D), H.w.doubles('x', D), H.w.doubles('a', D)])
    o, X, A = (H.w.objs[k] for k in 'oxa')
    x, a = ([H.w.get(q, 8 * i) for i in range(D)] for q in (X, A))
    pre = [t.flt(Z, dot(x, x))]
    for i in range(D):
        ck.equal_ob(nm('radial part removed, component %d' % i), run, (o, 8 * i), fm(TWO, fs(a[i], fd(fm(dot(x, a), x[i]), dot(x, x)))), pre, hk(H), H.regs(), real.Ctx)
    ck.ident_ob(nm('no acceleration along the radius is left'), run, [(o, 8 * i) for i in range(D)],
                lambda *r: (dot(list(r), x), Z), lambda *r: fa(dot(x, x), dot(a, a)), pre, hk(H), H.regs(), real.Ctx)
    # ---- density
    H, run = mk('w_density')
    W = t.uf('W', [norm(vsub(H.pv('pos'), H.bv('pos'))), half(H.p('radius'), H.b('radius'))], 'f')
    ck.equal_ob(nm('density = sum m_b W'), run, (H.P, F['density']), H.sum(fm(H.b('mass'), W)), [], hk(H), H.regs(), real.Ctx)
    frame_ob(ck, nm('density changes nothing else'), run, H.P, [F['density']], hk(H), [], H.regs(), nb=H)
    # ---- displacement acceleration
    for fn, what in (('w_arth', 'Arth'), ('w_diehl', 'Diehl')):
        for bc, bname in enumerate(('open', 'reflecting', 'frozen')):
            H, run = mk(fn, bc=bc)
            xa, xb, ha, hb = H.pv('pos'), H.bv('pos'), H.p('radius'), H.b('radius')
            ra, rb = norm(xa), norm(xb)
            hab = half(ha, hb)
            pw = lambda h: {1: h, 2: fm(h, h), 3: fm(fm(h, h), h)}[D]
            edge = t.flt(R, fa(ra, ha))

            def weight(r, h, hk_):
                """weight of a particle at distance r: strength length h, kernel length hk_"""
                if fn == 'w_arth':
                    return fm(h, fm(t.uf('W', [r, hk_], 'f'), t.fn('pow', h, t.fc(float(D))) if 0 else pw(h)))
                e = t.fc(.3)
                q = lambda d: fd(h, fa(d, fm(e, h)))
                w = fs(fm(q(r), q(r)), fm(q(h), q(h)))
                return w

            def pull(y, h, hk_, strength):
                d = vsub(xa, y)
                r = norm(d)
                if fn == 'w_arth':
                    w = weight(r, h, hk_)
                else:
                    w = weight(r, h, hk_)
                    w = fm(strength, t.ite(t.flt(w, Z), Z, w))
                return [t.ite(t.flt(Z, r), fd(fm(w, d[i]), r), Z) for i in range(D)]

            def mirror(y, r):
                """the point on the same ray, as far outside as y is inside"""
                d = fs(fm(TWO, R), r)
                if D == 1:
                    return [d]
                c, s_ = t.uf('cosatan2', (y[1], y[0]), 'f'), t.uf('sinatan2', (y[1], y[0]), 'f')
                if D == 2:
                    return [fm(d, c), fm(d, s_)]
                q = fd(y[2], r)
                u = fm(d, t.uf('sinacos', (q,), 'f'))
                return [fm(u, c), fm(u, s_), fm(d, q)]
            near = pull(xb, hab, hab, ha)
            if bc == 1:
                img = pull(mirror(xb, rb), ha, hab, ha)
                near = [fa(p_, t.ite(t.and_(edge, t.flt(rb, R)), q_, Z)) for p_, q_ in zip(near, img)]
            acc = [H.sum(c) for c in near]
            if bc == 1:
                own = pull(mirror(xa, ra), ha, ha, ha)
                acc = [fa(c, t.ite(edge, q_, Z)) for c, q_ in zip(acc, own)]
            if bc == 2:
                rad = dot(xa, acc)
                acc = [t.ite(edge, fm(TWO, fs(c, fd(fm(rad, q_), dot(xa, xa)))), c) for c, q_ in zip(acc, xa)]
            pre = [t.flt(Z, ha), t.flt(Z, R), t.flt(Z, dot(xa[:2], xa[:2]))]
            pick = None
            for i in range(D):
                spec = t.ite(t.fle(ra, R), acc[i], Z)
                ck.equal_ob(nm('%s, %s sphere: acceleration, component %d' % (what, bname, i)), run, (H.P, F['acc'][i]), spec, pre, hk(H, pick), H.regs(), real.Ctx,
                            abst=lambda ts, k=bc == 1: (polar(ts, k), []), n=150)
            frame_ob(ck, nm('%s, %s sphere: nothing else changes' % (what, bname)), run, H.P, list(F['acc']) + [F['neighbors']], hk(H, pick), pre, H.regs(), nb=H)
    # ---- profile
    H, run = mk('w_profile', lambda H: [H.P])
    prof = lambda r: t.uf('PROF', [r], 'f')
    rho = fm(fd(par('rho_initial'), prof(Z)), prof(fd(norm(H.pv('pos')), S)))
    h = fm(fm(eta, wid), t.fn('pow', fd(H.p('mass'), rho), t.fc(1. / D)))
    pre = [t.flt(Z, H.p('mass')), t.flt(Z, rho)]
    ck.equal_ob(nm('density of the profile'), run, (H.P, F['density']), rho, pre, hk(H), H.regs(), real.Ctx)
    ck.equal_ob(nm('smoothing length of the profile'), run, (H.P, F['radius']), h, pre, hk(H), H.regs(), real.Ctx)
    frame_ob(ck, nm('setting the profile changes nothing else'), run, H.P, [F['density'], F['radius']], hk(H), pre, H.regs())


def counts(ex, st, args, ins):
    """MPI_Allreduce of doubles or of 32-bit integers"""
    ty = args[3].o.name if isinstance(args[3], sx.Ptr) else repr(args[3])
    if 'mpi_int' not in ty or '64' in ty:
        return reduction(ex, st, args, ins)
    if not args[4].o.name.endswith('op_sum') or not (args[2].c and args[2].d == 1) or 'world' not in args[5].o.name:
        raise sx.Unsupported('MPI_Allreduce')
    x = ex.load(st, args[1], ('i', 32))
    ex.store(st, args[1], t.uf('iallsum', (x,), 32), ('i', 32))
    return t.bv(0, 32)


def relax(ck, D):
    """smoothing lengths rescaled to the wanted number of neighbours, convergence"""
    m, nat = ck.mod(D), ck.nat(D)
    F = fields(m, D)
    nm = lambda s: '%dD %s' % (D, s)
    par = lambda n, s='f': param(m, n, s)
    R, ngb, mu = par('wvt_radius'), par('wvt_ngb'), par('wvt_mu')
    PI, D_ = t.fc(math.pi), t.fc(1. / D)

    def hook(name, idx, g):
        if re.search('wvt_radius|wvt_ngb|wvt_mu', name):
            return g.rng.uniform(.5, 4)
        if re.search('wvt_convergence', name):
            return g.rng.uniform(0, 120)
        return None
    H = Wvt(ck, m, nat, D, F)
    bs = H.w.vec('bs', BODY)
    run = H.run('w_lengths', [bs])
    V = VecOb(ck, H, run, hook=hook, regs=H.regs(), positive=('radius',))
    n, k = H.w.vecs['bs']['n'], t.sym('kspec', 64, 2 ** 31 - 2)
    h = V.E('radius', k=k)
    vol = (lambda x: fm(PI, fm(x, x))) if D == 2 else lambda x: fd(fm(fm(PI, t.fc(4.0)), fm(fm(x, x), x)), t.fc(3.0))
    tot = t.uf('allsum', (t.sum_(Z, n, vol(h), k),), 'f')
    q = fd(fm(vol(R), ngb), tot)
    V.equal(nm('smoothing lengths rescaled: the volumes of all particles add up to the wanted number times the volume of the sphere'), 'radius',
            fm(V.E('radius'), t.fn('sqrt', q) if D == 2 else t.fn('pow', q, D_)), facts=[t.flt(Z, tot), t.flt(Z, R), t.flt(Z, ngb)])
    V.frame(nm('rescaling changes nothing but the smoothing lengths'), [F['radius']])


if __name__ == '__main__':
    main('P27', body)
