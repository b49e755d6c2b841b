"""leapfrog: each kick and drift is the stated update and nothing else; a whole
step is second order and time reversible"""
from hydrolib import *


def body(ck):
    ck.build([(d, 'integ.cc', d, ()) for d in (1, 2, 3)])
    ck.assume('machine arithmetic read as real arithmetic')
    for D in (1, 2, 3):
        m, nat = ck.mod(D), ck.nat(D)
        F = fields(m, D)
        nm = lambda s: '%dD %s' % (D, s)
        dt = gsym(m, r'^@_ZN7physics2dtE$')
        hdt = t.fmul(t.fc(.5), dt)

        def one(fn, what, upd, allowed):
            w = World(m)
            b = w.obj('b', BODY)
            run = Run(w, nat, fn, [b])
            g = lambda f, i=None: w.get(b, F[f] if i is None else F[f][i])
            for off, spec in upd(g):
                ck.equal_ob(nm('%s (byte %d)' % (what, off)), run, (b, off), spec)
            frame_ob(ck, nm(what.split(':')[0] + ': nothing else changes'), run, b, allowed)
        one('w_kick_v', 'velocity kick: v + dt/2 (a + g)',
            lambda g: [(F['vel'][i], t.fadd(g('vel', i), t.fmul(hdt, t.fadd(g('acc', i), g('gacc', i))))) for i in range(D)], F['vel'])
        one('w_kick_u', 'internal energy kick: u + dt/2 du/dt', lambda g: [(F['eint'], t.fadd(g('eint'), t.fmul(hdt, g('dudt'))))], [F['eint']])
        one('w_kick_e', 'total energy kick: e + dt/2 de/dt', lambda g: [(F['etot'], t.fadd(g('etot'), t.fmul(hdt, g('dedt'))))], [F['etot']])
        one('w_dadt', 'adiabat: A + dt dA/dt', lambda g: [(F['adiabatic'], t.fadd(g('adiabatic'), t.fmul(dt, g('dadt'))))], [F['adiabatic']])
        one('w_drift', 'drift: x + dt v', lambda g: [(F['pos'][i], t.fadd(g('pos', i), t.fmul(dt, g('vel', i)))) for i in range(D)], F['pos'])
        one('w_save', 'half-step velocity: v', lambda g: [(F['v12'][i], g('vel', i)) for i in range(D)], F['v12'])
        # a whole step
        w = World(m)
        b, s, r = w.obj('b', BODY), w.obj('s', BODY), w.obj('r', BODY)
        run = Run(w, nat, 'w_step', [b, s, r])
        A = lambda o, i: t.fadd(w.get(o, F['acc'][i]), w.get(o, F['gacc'][i]))
        for i in range(D):
            x, v = w.get(b, F['pos'][i]), w.get(b, F['vel'][i])
            ck.equal_ob(nm('kick-drift-kick: x + v dt + a dt^2/2, component %d' % i), run, (b, F['pos'][i]),
                        t.fadd(x, t.fadd(t.fmul(v, dt), t.fmul(t.fmul(hdt, dt), A(s, i)))))
            ck.equal_ob(nm('kick-drift-kick: v + dt (a_old + a_new)/2, component %d' % i), run, (b, F['vel'][i]),
                        t.fadd(v, t.fmul(hdt, t.fadd(A(s, i), A(r, i)))))
        for f, q in (('eint', 'dudt'), ('etot', 'dedt')):
            ck.equal_ob(nm('kick-drift-kick: %s by the trapezoidal rule' % f), run, (b, F[f]),
                        t.fadd(w.get(b, F[f]), t.fmul(hdt, t.fadd(w.get(s, F[q]), w.get(r, F[q])))))
        run = Run(w, nat, 'w_there_and_back', [b, s, r])
        for f in ('pos', 'vel', 'eint', 'etot'):
            for off in (F[f] if isinstance(F[f], list) else [F[f]]):
                ck.equal_ob(nm('a step back undoes a step: %s (byte %d)' % (f, off)), run, (b, off), w.get(b, off))


if __name__ == '__main__':
    main('P18', body)
