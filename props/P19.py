"""equations of state: stated relations for pressure, sound speed and internal
energy, reached through the selected pointers; thermodynamic consistency as
lemmas over these contracts"""
from hydrolib import *
import calculus as cal

Z, ONE = t.fc(0.0), t.fc(1.0)
# the selector's own pointers
SEL = r'^g:_ZN5param9_eos_typeE$|^g:_ZN3eos\d+[a-z_]+E$'
PW = lambda x, e: t.fn('pow', x, e)
SQRT = lambda x: t.fn('sqrt', x)
A_WD, B_WD, CL = t.fc(6.00233181e22), t.fc(9.73932099e5), t.fc(2.99792458e10)


def body(ck):
    ck.build([(d, 'eos.cc', d, ()) for d in (1, 3)])
    ck.assume('machine arithmetic read as real arithmetic; positive density, pressure and adiabatic invariant, exponents above one; pow(x,a+b)=pow(x,a)pow(x,b) for x>0')
    for D in (1, 3):
        one(ck, D)


def one(ck, D):
    m, nat = ck.mod(D), ck.nat(D)
    F = fields(m, D)
    nm = lambda s: '%dD %s' % (D, s)
    g1, g2, thr_p = param(m, 'poly_gamma'), param(m, 'poly_gamma2'), param(m, 'ppt_density_thr')
    thr = gsym(m, r'^@_ZN3eos5eos_t.*rho_thrE$')
    thr_name = [n for n in m.globals if re.search(r'^@_ZN3eos5eos_t.*rho_thrE$', n)][0]

    def hk(wd):
        def hook(name, idx, g):
            if name in (str(g1.d), str(g2.d)):
                return g.rng.uniform(1.1, 3.0)
            if name in (str(thr.d), str(thr_p.d)):
                return g.rng.uniform(.5, 2.0)
            if name == 'b+%d' % F['density']:
                return 10 ** g.rng.uniform(5, 9) if wd else g.rng.uniform(.2, 4.0)
            if name == 'b+%d' % F['ye']:
                return g.rng.uniform(.3, .7)
            if name in ['b+%d' % F[f] for f in ('pressure', 'adiabatic', 'eint', 'etot')]:
                return g.pos()
        return hook
    specs = {}

    def eos(k, what, field, spec, wd=False, reads=()):
        w = World(m)
        b = w.obj('b', BODY)
        run = Run(w, nat, 'w_%s_%s' % (what, k), [b])
        g = lambda f: w.get(b, F[f])
        pre = [t.flt(Z, g(f)) for f in ('density', 'ye', 'pressure', 'adiabatic', 'eint')] + [t.flt(ONE, x) for x in (g1, g2)] + \
            [t.flt(Z, thr), t.flt(Z, thr_p)]
        if field:
            v = spec(g)
            specs[k, what] = (v, g('density'), pre)
            ck.equal_ob(nm('%s: %s' % (k, what)), run, (b, F[field]), v, pre, hk(wd), rel=1e-8, scale=1e-9)
        frame_ob(ck, nm('%s: %s changes nothing else' % (k, what)), run, b, [F[field]] if field else [], hk(wd), pre, globals_ok=SEL) if k != 'ppt' or what != 'init' else None
        if k == 'ppt' and what == 'init':
            frame_init(w, run, b, pre)

    def frame_init(w, run, b, pre):
        ck.equal_ob(nm('ppt: init sets the threshold density'), run, ('global', thr_name), thr_p, pre, hk(False))
        offs = [(o, f) for o, f in b.fields.items() if f[0] != 'p' and o != F['adiabatic']]

        def proof():
            ck.tested(run, 20, hook=hk(False), pre=pre)
            bad = [o for o, f in offs if run.cell(b, o, f) is not w.get(b, o, f)]
            return (True, None) if not bad else (False, 'bytes %s change' % bad)

        def judge(r, bb, g):
            for o, f in offs:
                x, y = bb.read(b, o, f), ev(w.get(b, o, f), g)
                if f[0] != 'f':
                    y = int(y) & ((1 << (8 * sortw(f))) - 1)
                if x != y:
                    return dict(byte=o, before=y, after=x)
        ck.ob(nm('ppt: init changes nothing else of the particle'), proof, lambda: ck.sample(run, judge, hk(False), pre, 100))
    K = lambda g: g('adiabatic')
    R = lambda g: g('density')
    fm, fa, fs, fd = t.fmul, t.fadd, t.fsub, t.fdiv
    # polytropic and ideal
    for k in ('polytropic', 'ideal'):
        eos(k, 'init', 'adiabatic', lambda g: fd(g('pressure'), PW(R(g), g1)))
        eos(k, 'energy', 'eint', lambda g: fd(fm(K(g), PW(R(g), fs(g1, ONE))), fs(g1, ONE)))
    eos('polytropic', 'pressure', 'pressure', lambda g: fm(K(g), PW(R(g), g1)))
    eos('polytropic', 'soundspeed', 'soundspeed', lambda g: SQRT(fm(fm(K(g), g1), PW(R(g), fs(g1, ONE)))))
    eos('ideal', 'pressure', 'pressure', lambda g: fm(fm(fs(g1, ONE), R(g)), g('eint')))
    eos('ideal', 'soundspeed', 'soundspeed', lambda g: SQRT(fm(fm(g1, fs(g1, ONE)), g('eint'))))
    # piecewise polytropic: K is the invariant of the lower piece
    K2 = lambda g: fm(K(g), PW(thr, fs(g1, g2)))
    low = lambda g: t.flt(R(g), thr)
    eos('ppt', 'init', 'adiabatic', lambda g: t.ite(t.flt(R(g), thr_p), fd(g('pressure'), PW(R(g), g1)),
                                                    fd(g('pressure'), fm(PW(R(g), g2), PW(thr_p, fs(g1, g2))))))
    eos('ppt', 'pressure', 'pressure', lambda g: t.ite(low(g), fm(K(g), PW(R(g), g1)), fm(K2(g), PW(R(g), g2))))
    eos('ppt', 'soundspeed', 'soundspeed', lambda g: SQRT(t.ite(low(g), fm(fm(K(g), g1), PW(R(g), fs(g1, ONE))),
                                                                fm(fm(K2(g), g2), PW(R(g), fs(g2, ONE))))))
    ul = lambda g, r: fd(fm(K(g), PW(r, fs(g1, ONE))), fs(g1, ONE))
    uh = lambda g, r: fd(fm(K2(g), PW(r, fs(g2, ONE))), fs(g2, ONE))
    eos('ppt', 'energy', 'eint', lambda g: t.ite(low(g), ul(g, R(g)), fa(fs(uh(g, R(g)), uh(g, thr)), ul(g, thr))))
    # degenerate electrons, x = (rho Ye / B)^(1/3)
    X = lambda g: t.fn('cbrt', fd(fm(R(g), g('ye')), B_WD))
    sx1 = lambda x: SQRT(fa(ONE, fm(x, x)))
    psi = lambda x: fa(fm(fm(x, fs(fm(t.fc(2.0), fm(x, x)), t.fc(3.0))), sx1(x)), fm(t.fc(3.0), t.fn('asinh', x)))
    P_wd = lambda g: fm(A_WD, psi(X(g)))
    u_wd = lambda g: fm(fd(A_WD, R(g)), fs(fm(fm(t.fc(8.0), fm(X(g), fm(X(g), X(g)))), fs(sx1(X(g)), ONE)), psi(X(g))))
    c_wd = lambda g: fm(CL, SQRT(fd(fm(X(g), X(g)), fm(t.fc(3.0), fa(ONE, fm(X(g), X(g)))))))
    eos('wd', 'init', 'eint', u_wd, True)
    eos('wd', 'energy', 'eint', u_wd, True)
    eos('wd', 'pressure', 'pressure', P_wd, True)
    eos('wd', 'soundspeed', 'soundspeed', c_wd, True)
    for what in ('init', 'energy', 'pressure', 'soundspeed'):
        eos('no_eos', what, None, None)
    # half a step ahead
    dt = gsym(m, r'^@_ZN7physics2dtE$')
    hd = fm(t.fc(.5), dt)
    for fn in ('w_ahead_u',):
        w = World(m)
        b = w.obj('b', BODY)
        run = Run(w, nat, fn, [b])
        g = lambda f: w.get(b, F[f])
        u = fa(g('eint'), fm(hd, g('dudt')))
        pre = [t.flt(ONE, g1), t.flt(Z, g('density')), t.flt(Z, u)]
        ck.equal_ob(nm('ideal, half a step ahead: pressure'), run, (b, F['pressure']), fm(fm(fs(g1, ONE), g('density')), u), pre, hk(False))
        ck.equal_ob(nm('ideal, half a step ahead: sound speed'), run, (b, F['soundspeed']), SQRT(fm(fm(g1, fs(g1, ONE)), u)), pre, hk(False))
        frame_ob(ck, nm('half a step ahead changes nothing else'), run, b, [F['pressure'], F['soundspeed']], hk(False), pre, globals_ok=SEL)
    w = World(m)
    b = w.obj('b', BODY)
    NUL = {0: sx.NULLP, 8: sx.NULLP, 16: sx.NULLP}
    run = Run(w, nat, 'w_ahead_e', [b], None, {}, {'@_ZN14external_forceL17vec_accelerationsE': NUL, '@_ZN14external_forceL14vec_potentialsE': NUL})
    g = lambda f: w.get(b, F[f])
    vv = lambda f: [w.get(b, x) for x in F[f]]
    u0 = fs(g('etot'), fm(t.fc(.5), dot(vv('vel'), vv('vel'))))
    u = fa(u0, fm(hd, fs(g('dedt'), dot(vv('vel'), vv('acc')))))
    pre = [t.flt(ONE, g1), t.flt(Z, g('density')), t.flt(Z, u), t.flt(Z, u0)]

    def he(name, idx, gn):
        return gn.rng.uniform(20, 30) if name == 'b+%d' % F['etot'] else hk(False)(name, idx, gn)
    ck.equal_ob(nm('ideal, half a step ahead with total energy: pressure'), run, (b, F['pressure']), fm(fm(fs(g1, ONE), g('density')), u), pre, he)
    ck.equal_ob(nm('ideal, half a step ahead with total energy: sound speed'), run, (b, F['soundspeed']), SQRT(fm(fm(g1, fs(g1, ONE)), u)), pre, he)
    ck.equal_ob(nm('ideal, half a step ahead with total energy: internal energy is the recovered one'), run, (b, F['eint']), u0, pre, he)
    frame_ob(ck, nm('half a step ahead with total energy changes nothing else'), run, b, [F['pressure'], F['soundspeed'], F['eint']], he, pre, globals_ok=SEL)
    # ---------------------------------------------------------------- lemmas
    if D != 3:
        return
    def lemma(name, a, b, facts, sub=None):
        def proof():
            x, y = (sub(a), sub(b)) if sub else (a, b)
            c = real.Ctx()
            r = c.equal(x, y, facts)
            return r
        ck.ob('lemma: ' + name, proof, lambda: (None, 0))
    for k in ('polytropic', 'ppt'):
        P, rho, pre = specs[k, 'pressure']
        u, cs = specs[k, 'energy'][0], specs[k, 'soundspeed'][0]
        at = t.not_(t.feq(rho, thr))
        lemma('%s: c^2 = dP/drho' % k, fm(cs, cs), cal.deriv(P, rho), pre + [at])
        lemma('%s: du/drho = P/rho^2' % k, cal.deriv(u, rho), fd(P, fm(rho, rho)), pre + [at])
        Kt = specs[k, 'init'][0]
        w = World(m)
        pr = w.get(w.obj('b', BODY), F['pressure'])
        kk = w.get(w.objs['b'], F['adiabatic'])
        lemma('%s: the pressure of the invariant is the pressure it came from' % k,
              t.subst(P, {kk: t.subst(Kt, {thr_p: thr})}), pr, pre)
    P, rho, pre = specs['ppt', 'pressure']
    u = specs['ppt', 'energy'][0]
    for nme, q in (('pressure', P), ('internal energy', u)):
        lo, hi = [t.subst(q, {t.flt(rho, thr): c}) for c in (t.TRUE, t.FALSE)]
        lemma('ppt: %s is continuous at the threshold' % nme, t.subst(lo, {rho: thr}), t.subst(hi, {rho: thr}), pre)
    # ideal: u of the invariant gives back P = K rho^gamma and c^2 = gamma P / rho
    u, rho, pre = specs['ideal', 'energy']
    w = World(m)
    eint = w.get(w.obj('b', BODY), F['eint'])
    lemma('ideal: pressure from the energy of the invariant is K rho^gamma', t.subst(specs['ideal', 'pressure'][0], {eint: u}),
          specs['polytropic', 'pressure'][0], pre)
    cs, P = specs['ideal', 'soundspeed'][0], specs['ideal', 'pressure'][0]
    lemma('ideal: c^2 = gamma P / rho', fm(cs, cs), fd(fm(g1, P), rho), pre)
    # white dwarf: derivatives in x, with rho = B x^3 / Ye
    P, rho, pre = specs['wd', 'pressure']
    u, cs = specs['wd', 'energy'][0], specs['wd', 'soundspeed'][0]
    x, ye = t.sym('x', 'f'), w.get(w.objs['b'], F['ye'])
    As, Bs, Cs = t.sym('A', 'f'), t.sym('B', 'f'), t.sym('C', 'f')
    P, u, cs = [t.subst(z, {A_WD: As, B_WD: Bs, CL: Cs}) for z in (P, u, cs)]
    cb = [y for y in t.walk(P) if y.op == 'fn' and y.d == 'cbrt'][0]

    def sub(v):
        v = t.subst(v, {cb: x})
        return t.subst(v, {rho: fd(fm(Bs, fm(x, fm(x, x))), ye)})
    lemma('wd: du/drho = P/rho^2', cal.deriv(u, rho), fd(P, fm(rho, rho)), [t.flt(Z, q) for q in (x, ye, As, Bs, Cs)], sub)
    # energy density of the electrons incl. rest mass: e = rho u + 8 A x^3; c^2/c_l^2 = dP/de
    e = fa(fm(rho, u), fm(fm(t.fc(8.0), As), fm(cb, fm(cb, cb))))
    lemma('wd: c^2 = c_light^2 dP/de', fm(fm(cs, cs), cal.deriv(e, rho)), fm(fm(Cs, Cs), cal.deriv(P, rho)), [t.flt(Z, q) for q in (x, ye, As, Bs, Cs)], sub)


if __name__ == '__main__':
    main('P19', body)
