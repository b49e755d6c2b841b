"""initial data generators"""
from hydrolib import *
import procs
from P30 import guarded
import math

GENS = {1: 'Sedov blast', 2: 'Noh infall', 3: 'shock tube'}
WHOLE = {4: 'shear layers', 5: 'heavy over light'}  # whole runs only
I = '-I' + build.REPO + '/app/id_generators/include'
fm, fd, fs = t.fmul, t.fdiv, t.fsub
BOUND = ('generated parameter files: boxes of any shape, discs and balls, the three lattices, four kernels, the density profiles (balls), '
         'all six shock tubes with equal masses or equal separations (then the unit middle box); blasts also with perturbed lattices and with a particle exactly at the radius; without periodic boundaries; '
         'shear layers (Kelvin-Helmholtz) and heavy over light fluid (Rayleigh-Taylor) in two and three dimensions, three lattices, any density ratio')


def run_derived(ck, k, D):
    m = ck.mod((k, D))
    w = World(m)
    n = t.sym('lattice points', 64, 2 ** 40)

    def count(ex, st, args, ins):
        calls.append((st.g, [ex.load(st, a, ir.F64) if isinstance(a, sx.Ptr) else a for a in args],
                      [[ex.load(st, a.add(8 * i), ir.F64) for i in range(D)] for a in args if isinstance(a, sx.Ptr)]))
        return n
    calls = []
    rx = re.compile
    noop = lambda ex, st, args, ins: ex.opaque_value(ins, args)
    out = sx.Obj('g:_ZSt4cout', 512, 'input')
    con = {rx(r'log_message_t6streamEv'): lambda *a: sx.Ptr(out, 0),
           rx(r'log_message|MPI_|locale|ostream|_ZNSo|_ZSt4endl|ctype|sprintf|density_profilesL?7select_Ev|particle_latticeL?7select_Ev|kernelsL?7select_Ev|H5P_fileExists|basic_ostringstream|basic_stringI'): noop,
           rx(r'iequals|boost9algorithm6equals'): lambda *a: t.TRUE, '@COUNT': count, '@access': noop, rx('H5P_findIterationSnapshot'): noop, '@strlen': lambda *a: t.bv(3, 64), '@PROF': lambda ex, st, args, ins: t.uf('PROF', args, 'f')}
    gl = {}
    for nm in m.globals:
        if re.search(r'^@_ZN16particle_latticeL?5countE$', nm):
            gl[nm] = {0: sx.Fn('@COUNT')}
        if re.search(r'^@_ZN16density_profilesL?25spherical_density_profileE$', nm):
            gl[nm] = {0: sx.Fn('@PROF')}
    txt = sx.Obj('prefix', 64, 'undef')
    for nm in m.globals:
        if re.search(r'^@_ZN5paramL?(19initial_data_prefix|15density_profile)E$', nm):
            gl[nm] = {0: sx.Ptr(txt, 0)}
    buf = sx.Obj('file-name', 64, 'undef')
    for nm in m.globals:
        if re.search(r'^@_ZL17initial_data_fileB5cxx11$', nm):
            gl[nm] = {0: sx.Ptr(buf, 0), 8: t.bv(0, 64)}
    r = Run(w, ck.nat((k, D)), 'w_derived', [], None, con, gl)
    return m, r, n, calls


SOD = {1: (1., 1., 0., .125, .1, 0.), 2: (1., .4, -2., 1., .4, 2.), 3: (1., 1000., 0., 1., .01, 0.), 4: (1., .01, 0., 1., 100., 0.),
       5: (5.99924, 460.894, 19.5975, 5.99242, 46.095, -6.19633), 6: (1., 1e-6, 1., 1., 1e-6, -1.)}


def derived(ck, X):
    ck.build([((k, D), 'gen.cc', D, ('-DGEN=%d' % k, I)) for k in GENS for D in (1, 2, 3)])
    ck.assume('machine arithmetic read as real arithmetic (derived parameters)')
    ck.assume('contracts of the lattice count (C24), the density profile (P21), the installation of the selected functions and the look-up of snapshots'.replace('C24', 'P24'))
    for k in GENS:
        for D in (1, 2, 3):
            m, r, n, calls = run_derived(ck, k, D)
            one(ck, X[k, D], k, D, m, r, n, calls)


def one(ck, exe, k, D, m, r, n, calls):
    nm = lambda s: '%s %dD: %s' % (GENS[k], D, s)

    def replay():
        q = procs.run(exe, [ck.seed * 7000, 80, 'gen'], 1, 60)
        if q[0] == 'fail':
            return dict(run='genrun %d 80 gen' % (ck.seed * 7000), what=q[1])
        return None, q[1] if q[0] == 'ok' else 0

    def final(rx, ty=ir.F64, off=0):
        r.exec()
        c = [x for x in m.globals if re.search(rx, x)]
        if len(c) != 1:
            raise sx.Unsupported('no variable %s' % rx)
        if c[0] not in r.ex.gobj:
            return t.sym('g:%s+%d' % (c[0][1:], off), sx.sort_of(ty))
        return r.ex.load(r.st, sx.Ptr(r.ex.gobj[c[0]], off), ty)
    own = lambda s, off=0: lambda: final(r'^@_ZL%d%s$' % (len(s), s), ir.F64, off)
    par = lambda s, ty=ir.F64: lambda: final(r'^@_ZN5paramL?%d_%sE$' % (len(s) + 1, s), ty)

    def ob(what, val, spec, pre):
        def proof():
            v = val()
            g = list(pre)
            if v.s != 'f':
                return smt.valid(t.eq(v, spec), g + [r.st.g])
            c = real.Ctx()
            return c.equal(v, spec, g + [r.st.g])
        return ck.ob(nm(what), proof, replay)
    p = lambda s, w=None: param(m, s, *([w] if w else []))
    nx = p('lattice_nx', 64)
    L, W, H, R, rho = (p(x) for x in ('box_length', 'box_width', 'box_height', 'sphere_radius', 'rho_initial'))
    half = lambda x: fm(x, t.fc(.5))
    sizes = [L, W, H][:D]
    if k == 3:
        num = p('sodtest_num', 16)
        for i, S in SOD.items():
            pre = [t.eq(num, t.bv(i, 16))]
            for s, v in zip(('rho_1', 'pressure_1', 'vx_1', 'rho_2', 'pressure_2', 'vx_2'), S):
                ob('%s of test %d' % (s, i), own(s), t.fc(v), pre)
        pre = [t.not_(t.slt(nx, t.bv(5, 64))), t.slt(nx, t.bv(2 ** 40, 64)), t.eq(num, t.bv(1, 16))]
        sep = fd(L, t.sitofp(t.sub(par('lattice_nx', ('i', 64))(), t.bv(1, 64))))
        ob('separation', par('sph_separation'), sep, pre)

        def third():
            v = t.sub(par('lattice_nx', ('i', 64))(), t.bv(1, 64))
            a = t.sub(nx, t.bv(1, 64))
            return smt.valid(t.and_(t.eq(t.urem(v, t.bv(3, 64)), t.bv(0, 64)), t.not_(t.slt(a, v)), t.slt(t.sub(a, v), t.bv(3, 64))), pre + [r.st.g], 20000)
        if hasattr(t, 'urem'):
            ck.ob(nm('the number of intervals is the largest multiple of three not above the one asked for'), third, replay)
        sixth = fd(L, t.fc(6.0))
        for b, lo, hi in (('cbox', t.fneg(sixth), sixth), ('rbox', sixth, half(L)), ('lbox', t.fneg(half(L)), t.fneg(sixth))):
            ob('%s starts' % b, own(b + '_min'), lo, pre)
            ob('%s ends' % b, own(b + '_max'), hi, pre)
            for d in range(1, D):
                ob('%s lower face %d' % (b, d), own(b + '_min', 8 * d), t.fneg(half(sizes[d])), pre)
                ob('%s upper face %d' % (b, d), own(b + '_max', 8 * d), half(sizes[d]), pre)
        return
    dom = p('domain_type', 32)
    for kind in ((0,) if D == 1 else (0, 1)):
        pre = [t.eq(dom, t.bv(kind, 32))]
        what = ('box', 'ball')[kind]
        ext = fm(t.fc(2.), R) if kind else L
        sep = fd(ext, t.sitofp(t.sub(nx, t.bv(1, 64))))
        if D == 1 or not kind:
            vol = sizes[0]
            for x in sizes[1:]:
                vol = fm(vol, x)
        elif D == 2:
            vol = fm(t.fc(math.pi), fm(R, R))
        else:
            vol = fd(fm(R, fm(R, R)), t.uf('PROF', [t.fc(0.)], 'f'))
        M = fm(rho, vol)
        ma = fd(M, t.sitofp(n))
        h = fm(fm(p('sph_eta'), gsym(m, r'^@_ZN7kernelsL?12kernel_widthE$')), t.fn('pow', fd(ma, rho), t.fc(1. / D)))
        ob('separation (%s)' % what, par('sph_separation'), sep, pre)
        ob('number of particles (%s)' % what, par('nparticles', ('i', 64)), n, pre)
        if D > 1:
            ob('total mass (%s)' % what, own('total_mass'), M, pre)
        ob('mass of a particle (%s)' % what, own('mass_particle'), ma, pre)
        ob('smoothing length (%s)' % what, par('sph_smoothing_length'), h, pre)
        ob('internal energy (%s)' % what, par('uint_initial'), fd(p('pressure_initial'), fm(rho, fs(p('poly_gamma'), t.fc(1.)))), pre)
        for d in range(D):
            e = R if kind else half(sizes[d])
            ob('lower face %d (%s)' % (d, what), own('bbox_min', 8 * d), t.fneg(e), pre)
            ob('upper face %d (%s)' % (d, what), own('bbox_max', 8 * d), e, pre)

        def counted():
            r.exec()
            if not calls:
                return False, 'the lattice is not counted'
            for g, a, box in calls:
                lat, do, lo, hi, sp, first = a
                if len(box) != 2 or smt.valid(t.and_(t.eq(a[0], p('lattice_type', 32)), t.eq(a[1], dom), t.eq(a[5], t.bv(0, 64))), pre + [g]) is not True:
                    return False, 'the lattice counted is another one'
                todo = [(a[4], sep)]
                for d in range(D):
                    e = R if kind else half(sizes[d])
                    todo += [(box[0][d], t.fneg(e)), (box[1][d], e)]
                for x, y in todo:
                    if real.Ctx().equal(x, y, pre + [g]) is not True:
                        return False, 'the lattice counted is another one'
            return True
        ck.ob(nm('particles are counted on the lattice generated (%s)' % what), counted, replay)
    ck.absorb(r)


def body(ck):
    ck.level = 'other'
    X = procs.exes({(k, d): ('genrun.cc', d, ('-DGEN=%d' % k, I)) for k in {**GENS, **WHOLE} for d in (1, 2, 3) if k in GENS or d > 1})
    guarded(ck, 'derived parameters', lambda ck: derived(ck, X))
    s0, f = (ck.seed - 1) * 100000, 5 if ck.thorough else 1
    procs.sweep(ck, 'generated initial data', [('%s %dD' % ({**GENS, **WHOLE}[k], d), x, [s0 + 1000 * k + 100 * d, 60 * f, 'gen'], 1) for (k, d), x in X.items()], BOUND)


if __name__ == '__main__':
    main('P33', body)
