"""whole simulations follow the scheme, whatever the number of processes"""
from hydrolib import *
import procs
from P30 import guarded
from P13 import positive

Z = t.fc(0.0)
# stages the drivers apply to every particle with its neighbours
STAGES = [('density, pressure and sound speed', 'w_dps'), ('signal speed', 'w_signalspeed'), ('viscosity switch', 'w_alpha'),
          ('acceleration', 'w_acceleration'), ('internal energy rate', 'w_dudt'), ('total energy rate', 'w_dedt'),
          ('repulsion', 'w_repulsion')]
BOUND = ('generated simulations: 24 to 140 particles, 5 to 7 iterations with a snapshot after each, from the first iteration or restarted, five kernels, two equations of state, fixed and adaptive step, '
         'internal and total energy, constant and adaptive viscosity, relaxation, external gravity, smoothing length constant, common or per particle (then constant viscosity and fixed step), 1 to 5 processes; gravity of the particles in 3D with opening angle 0')


class Stage(Hydro):
    def eosp(self, ex, st, args, ins):
        g = lambda f: ex.load(st, args[0].add(self.F[f]), ir.F64)
        ex.store(st, args[0].add(self.F['pressure']), t.uf('EOSP', [g('density'), g('eint')], 'f'), ir.F64)

    def eosc(self, ex, st, args, ins):
        g = lambda f: ex.load(st, args[0].add(self.F[f]), ir.F64)
        ex.store(st, args[0].add(self.F['soundspeed']), t.uf('EOSC', [g('density'), g('eint'), g('pressure')], 'f'), ir.F64)

    def contracts(self):
        return {**Hydro.contracts(self), '@EOSP': self.eosp, '@EOSC': self.eosc}

    def globals(self):
        return {**Hydro.globals(self), '@_ZN3eos16compute_pressureE': {0: sx.Fn('@EOSP')}, '@_ZN3eos18compute_soundspeedE': {0: sx.Fn('@EOSC')}}

    def bind(self, nat, gen):
        Hydro.bind(self, nat, gen)
        nat.lib.t_eos()

    def regs(self):
        return {**Hydro.regs(self), 'EOSP': lambda r, u: .3 * r + .7 * u, 'EOSC': lambda r, u, p: .5 * r + .2 * u + .1 * p}


def body(ck):
    ck.level = 'other'
    guarded(ck, 'stages', stages)
    X = procs.exes({(d, nw): ('drive.cc', d, ('-DNEWTONIAN',) if nw else ()) for d in (1, 2, 3) for nw in (0, 1)})
    s0, k = (ck.seed - 1) * 100000, 4 if ck.thorough else 1
    for nw, what in enumerate(('hydro driver', 'newtonian driver')):
        procs.sweep(ck, '%s: whole simulations' % what,
                    [('%dD, %d processes' % (d, np), X[d, nw], [s0 + 5000 * nw + 1000 * np + d, (60 if not nw else 40) * k, 'a'], np)
                     for np in (1, 2, 3, 5) for d in (1, 2, 3)], BOUND)


def stages(ck):
    """what a stage computes for a particle does not depend on what the same
    stage has computed, or not yet computed, for its neighbours"""
    ck.build([(d, 'stage.cc', d, ()) for d in (1, 2, 3)])
    ck.assume('machine arithmetic read as real arithmetic (stages)')
    ck.assume('contracts of the selected kernel, gradient, viscosity and equation of state (functions of their arguments)')
    for D in (1, 2, 3):
        m, nat = ck.mod(D), ck.nat(D)
        F = fields(m, D)
        nm = lambda s: '%dD %s' % (D, s)
        for what, fn in STAGES:
            H = Stage(ck, m, nat, D, F)
            run = H.run(fn)
            independent(ck, H, run, nm(what))
        midpoint(ck, m, nat, D, F, nm)


def hooks(H):
    base = H.hook()

    def hk(name, idx, g):
        if name.endswith('2dtE+0') or 'viscosity_delta' in name or 'viscosity_l' in name:
            return g.pos()
        if 'viscosity_alpha_max' in name:
            return 2.0
        if re.search('thermokinetic|evolve_internal', name):
            return 0
        return base(name, idx, g)
    return hk


def independent(ck, H, run, what):
    pre = positive(H, (H.P,), ('density', 'mass', 'radius'))
    st = {}

    def written():
        if 'w' not in st:
            w = {}
            for off, f in sorted(H.P.fields.items()):
                if f[0] != 'p':
                    v = run.cell(H.P, off, f)
                    if v is not H.w.get(H.P, off, f):
                        w[off] = v
            offs = {'nb.%d' % o: 'other.%d' % o for o in w}

            def other(v):
                mp = {y: t.uf(offs[y.d], y.a, y.s) for y in t.walk(v) if y.op == 'uf' and y.d in offs}
                return t.subst(v, mp) if mp else v
            st['w'] = {o: (v, other(v)) for o, v in w.items()}
        return st['w']

    def proof():
        ws = written()
        if not ws:
            raise sx.Unsupported('nothing written')
        for o, (v, u) in ws.items():
            if v is not u:
                r = real.Ctx().equal(v, u, pre) if v.s == 'f' else None
                if r is not True:
                    return r, 'the value at offset %d depends on the same stage of the neighbours' % o
        return True

    def search():
        ws = {o: vu for o, vu in written().items() if vu[0].s == 'f' and vu[0] is not vu[1]}

        def judge(r, b, g):
            for o, (v, u) in ws.items():
                x, y = (ev(z, g) for z in (v, u))
                if not abs(x - y) <= 1e-9 * (abs(x) + abs(y)) + 1e-300:
                    return dict(offset=o, value=x, with_other_neighbours=y)
            return None
        return ck.sample(run, judge, hooks(H), pre, 100, 4, H.regs(), None, [z for vu in ws.values() for z in vu])
    ck.ob('%s: independent of the order in which particles are handled' % what, proof, search)


def midpoint(ck, m, nat, D, F, nm):
    """pressure and sound speed half a step ahead"""
    dt = gsym(m, r'^@_ZN7physicsL?2dtE$')
    for total in (0, 1):
        H = Stage(ck, m, nat, D, F)
        run = H.run('w_midpoint_total' if total else 'w_midpoint', [H.P])
        p = H.p
        v2 = dot(H.pv('vel'), H.pv('vel'))
        u0 = t.fsub(p('etot'), t.fmul(t.fc(.5), v2)) if total else p('eint')
        rate = t.fsub(p('dedt'), dot(H.pv('vel'), H.pv('acc'))) if total else p('dudt')
        u = t.fadd(u0, t.fmul(t.fmul(t.fc(.5), dt), rate))
        P = t.uf('EOSP', [p('density'), u], 'f')
        C = t.uf('EOSC', [p('density'), u, P], 'f')
        how = 'total' if total else 'internal'
        pre = [t.fle(Z, u0), t.fle(v2, p('etot'))] if total else []

        def hk(name, idx, g, H=H):
            if name == 'P+%d' % F['etot']:
                return 200 + g.pos()
            if name.startswith('P+') and int(name[2:]) in F['vel']:
                return g.rng.uniform(-5, 5)
            return hooks(H)(name, idx, g)
        kw = dict(pre=pre, hook=hk, regs=H.regs(), n=100)
        ck.equal_ob(nm('pressure half a step ahead (%s energy)' % how), run, (H.P, F['pressure']), P, **kw)
        ck.equal_ob(nm('sound speed half a step ahead (%s energy)' % how), run, (H.P, F['soundspeed']), C, **kw)
        ck.equal_ob(nm('internal energy after the half step (%s energy)' % how), run, (H.P, F['eint']), u0, **kw)
        frame_ob(ck, nm('half a step ahead (%s energy): nothing else changes' % how), run, H.P, [F['pressure'], F['soundspeed'], F['eint']], hk, pre, H.regs())


if __name__ == '__main__':
    main('P31', body)
