"""external forces: each acceleration is minus the gradient of its potential;
the selected ones are added"""
from hydrolib import *
import copy
import calculus as cal


def body(ck):
    ck.build([(d, 'force.cc', d, ()) for d in (1, 2, 3)])
    ck.assume('machine arithmetic read as real arithmetic; points where a force switches on are left out; steepness, radius, masses, separation positive')
    ck.assume('spherical density profile: a function and its derivative (contract, property P21)')
    z = t.fc(0.0)
    for D in (1, 2, 3):
        m, nat = ck.mod(D), ck.nat(D)
        F = fields(m, D)
        nm = lambda s: '%dD %s' % (D, s)
        names = ['wall_x', 'wall_y', 'wall_z'][:D] + ['spherical_wall', 'gravity', 'poison', 'support'] + (['orbit', 'airfoil'] if D > 1 else [])
        for k in names:
            force(ck, m, nat, D, F, k, nm, z)
        # drag
        w = World(m)
        v, o = w.doubles('v', D), w.out('o', 8 * D)
        run = Run(w, nat, 'w_drag', [v, o])
        vs = [w.get(v, 8 * i) for i in range(D)]
        c = t.fadd(param(m, 'relaxation_beta'), t.fmul(param(m, 'relaxation_gamma'), dot(vs, vs)))
        for i in range(D):
            ck.equal_ob(nm('drag is -(beta + gamma v^2) v, component %d' % i), run, (o, 8 * i), t.fneg(t.fmul(c, vs[i])))
        select_ob(ck, nat, D, nm)


def positive(m, names):
    return [str(param(m, n).d) for n in names]


def force(ck, m, nat, D, F, k, nm, z):
    P = {n: param(m, n) for n in ('extforce_wall_powerindex', 'extforce_wall_steepness', 'sphere_radius', 'gravitational_constant',
                                  'orbital_separation', 'mass_neutron_star', 'mass_white_dwarf', 'poly_gamma', 'rho_initial',
                                  'pressure_initial', 'airfoil_thickness', 'airfoil_camber', 'airfoil_size', 'airfoil_anchor_x',
                                  'airfoil_anchor_y', 'box_length', 'box_width', 'box_height')}

    def prof(name):
        def h(ex, st, args, ins):
            return t.uf(name, (args[0],), 'f')
        return h
    con = {'@RHO': prof('RHO'), '@DRHO': prof('DRHO')}
    gl = first_calls(m)
    sp = '@_ZN16density_profilesL25spherical_density_profileE'
    sd = '@_ZN16density_profilesL17spherical_drho_drE'
    if sp in m.globals and sd in m.globals:
        gl[sp], gl[sd] = {0: sx.Fn('@RHO')}, {0: sx.Fn('@DRHO')}
    rst = reset_statics(m)

    def bind(nat_, gen):
        rst(nat_, gen)
        nat_.lib.t_profile()
    w = World(m)
    b, o = w.obj('b', BODY), w.out('o', 8 * D)
    ra = Run(w, nat, 'w_a_' + k, [b, o], None, con, gl, bind=bind)
    rp = Run(w, nat, 'w_p_' + k, [b], ir.F64, con, gl, bind=bind)
    xs = [w.get(b, f) for f in F['pos']]
    g1 = P['poly_gamma']
    # profile normalised at the origin
    regs = {'RHO': lambda x: 2.0 - .25 * x * x, 'DRHO': lambda x: -.5 * x}
    pre = [t.flt(z, P[n]) for n in ('extforce_wall_steepness', 'sphere_radius', 'gravitational_constant', 'orbital_separation', 'airfoil_size',
                                    'mass_neutron_star', 'mass_white_dwarf', 'rho_initial', 'pressure_initial', 'airfoil_thickness')] + \
        [t.flt(t.fc(1.0), P['extforce_wall_powerindex']), t.flt(t.fc(1.0), g1), t.flt(z, dot(xs, xs)), t.flt(z, t.uf('RHO', (z,), 'f'))]
    if k == 'support':
        # the acceleration is defined as zero within 1e-12 of the centre
        pre.append(t.flt(t.fmul(t.fc(1e-11), P['sphere_radius']), norm(xs)))
    R = {'extforce_wall_powerindex': (1.5, 4), 'poly_gamma': (1.2, 3), 'sphere_radius': (.3, 1.5), 'box_length': (.2, 1.5), 'box_width': (.2, 1.5),
         'box_height': (.2, 1.5), 'airfoil_size': (1, 3), 'airfoil_thickness': (.1, .5), 'airfoil_camber': (-.2, .2)}
    box = {str(P[n].d): r for n, r in R.items()}
    pos = {str(P[n].d) for n in P if n not in R and not n.startswith('airfoil_anchor')}
    anc = [str(P['airfoil_anchor_x'].d), str(P['airfoil_anchor_y'].d)]

    def hook(name, idx, g):
        if name in box:
            return g.rng.uniform(*box[name])
        if name in anc:
            return g.rng.uniform(-.3, .3)
        if name in pos:
            return g.rng.uniform(.3, 2)
        if name in ['b+%d' % f for f in F['pos']]:
            return g.rng.uniform(-1, 2) if k != 'airfoil' else (g.rng.uniform(0, 1.5) if name == 'b+%d' % F['pos'][0] else g.rng.uniform(-.3, .3))
        return None
    specs = {}

    def grad(i):
        if i not in specs:
            rp.exec()
            ck.absorb(rp)
            e = ck.selftest(rp, 20, hook=hook, pre=pre, regs=regs)
            if e:
                raise sx.Unsupported('self-test: ' + e)
            specs[i] = t.fneg(cal.deriv(real.prep(rp.val, {}), xs[i]))
        return specs[i]
    for i in range(D):
        grad_ob(ck, nm('%s: acceleration is minus the gradient of the potential, component %d' % (k, i)), ra, rp, (o, 8 * i), i, grad, pre, hook, regs, D, w, b, F)
    # neither changes the particle
    frame_ob(ck, nm('%s: the particle is unchanged' % k), ra, b, [], hook, pre, regs, globals_ok=r'external_force')


def grad_ob(ck, name, ra, rp, where, i, grad, pre, hook, regs, D, w, b, F):
    read, val = ck.reader(ra, where)
    res = {}

    def proof():
        ck.tested(ra, 20, hook=hook, pre=pre, regs=regs)
        g = grad(i)
        v = val()
        sw = [c for c in cal.interior(v, real.prep(rp.val, {}), g)]
        c = real.Ctx()
        r = c.equal(v, g, pre + sw)
        if r is False:
            res['cex'] = ck.confirm(v, g, pre, hook, regs, guides=c.guide)
        return (r, None if r else 'gradient differs: %s' % [t.show(x, 4)[:300] if isinstance(x, t.T) else 0 for x in (c.why or ())])

    # central differences of the compiled potential
    def judge(r, bb, g):
        got = read(r, bb)
        x0 = ev(w.get(b, F['pos'][i]), g)
        d = []
        for h in (1e-4, 5e-5):
            v = []
            for s in (h, -h):
                g2 = pinned(g, w.get(b, F['pos'][i]), x0 + s)
                v.append(rp.call_native(g2)[0])
            d.append(-(v[0] - v[1]) / (2 * h))
        if abs(d[0] - d[1]) > 1e-5 * (abs(d[0]) + 1):
            return None                 # a switch or a steep point nearby
        want = (4 * d[1] - d[0]) / 3
        if not abs(got - want) <= 1e-4 * (abs(got) + abs(want)) + 1e-5:
            return dict(acceleration=got, minus_gradient=want)
    ck.ob(name, proof, lambda: with_cex(res, ck.sample(ra, judge, hook, pre, 300, 4, regs)))


def pinned(g, sym, x):
    """the same inputs with one coordinate moved"""
    h = copy.copy(g)
    h.cache, h.vals = dict(g.cache), dict(g.vals)
    h.env = {'*': h.sym}
    h.cache[sym] = x
    return h


def select_ob(ck, nat, D, nm):
    """bounded: the selector on every name, pair and wall combination"""
    names = ['spherical wall', 'gravity', 'walls:x', 'Gravity', 'poison', 'zero', 'none'] + (['airfoil', 'walls:xy', 'walls:yx', 'walls:XY', 'walls:Y'] if D > 1 else []) + \
        (['orbit', 'walls:xyz', 'walls:z', 'walls:zx'] if D > 2 else [])

    def search():
        def go(note):
            n = 0
            for a in names:
                for c in [None] + names:
                    if c in ('zero', 'none') or (c and a in ('zero', 'none')):
                        continue
                    s = a if c is None else a + ',' + c
                    note({'external force': s})
                    x = (ctypes.c_double * 3)(*[ck.rng.uniform(-2, 2) for _ in range(3)])
                    o = (ctypes.c_double * 8)()
                    nat.lib.w_select_force(s.encode(), x, o)
                    n += 1
                    for i in range(4):
                        if not close(o[i], o[4 + i], 1e-12, 1e-12):
                            return dict(external_force=s, point=list(x)[:D], total=o[i], sum_of_parts=o[4 + i], which='potential' if i == 3 else 'acceleration %d' % i)
            return n
        r = isolated(go, 120)
        if r[0] == 'ok':
            return r[1] if isinstance(r[1], dict) else (None, r[1])
        return dict(observed=str(r)[:300])
    ck.bounded(nm('the selected forces are those named and they are added'), search, 'every name and every pair of names, one random point each')


if __name__ == '__main__':
    main('P20', body)
