"""density = kernel-weighted mass sum over the given neighbours, any number;
smoothing length = eta * width * (m/rho)^(1/D)"""
from hydrolib import *


def body(ck):
    ck.build([(d, 'hydro.cc', d, ()) for d in (1, 2, 3)])
    ck.assume('machine arithmetic read as real arithmetic; the kernel selected at run time is a function W(r,h) (contract of the function pointer)')
    for D in (1, 2, 3):
        m = ck.mod(D)
        F = fields(m, D)
        nm = lambda s: '%dD %s' % (D, s)
        H = Hydro(ck, m, ck.nat(D), D, F)
        hook, regs = H.hook(), H.regs()
        run = H.run('w_density')
        rab = norm(vsub(H.pv('pos'), H.bv('pos')))
        spec = H.sum(t.fmul(H.b('mass'), t.uf('W', [rab, half(H.p('radius'), H.b('radius'))], 'f')))
        pre = [t.ult(t.bv(0, 64), H.n)]
        ck.equal_ob(nm('density is the sum of m_b W(|r_ab|,(h_a+h_b)/2) over all given neighbours'), run, (H.P, F['density']),
                    spec, pre=pre, hook=hook, regs=regs, ctx=H.ctx)
        frame_ob(ck, nm('density changes nothing else'), run, H.P, [F['density']], hook, pre, regs)
        smoothing(ck, m, D, F, nm)


def root(x, D):
    if D == 1:
        return x
    return t.fn('sqrt', x) if D == 2 else t.fn('cbrt', x)


def smoothing(ck, m, D, F, nm):
    """every element of a collection of any length"""
    try:
        eta, wid = param(m, 'sph_eta'), gsym(m, r'^@_ZN7kernelsL?12kernel_widthE$')
    except sx.Unsupported as e:
        ck.notes.append('parameter storage not found: %s' % e)
        eta, wid = t.sym('g:_ZN5param8_sph_etaE+0', 'f'), t.sym('g:_ZN7kernelsL12kernel_widthE+0', 'f')

    def pos(name, idx, g):
        return g.pos() if name in (str(eta.d), str(wid.d)) else None
    H = Hydro(ck, m, ck.nat(D), D, F)
    bs = H.w.vec('bs', BODY)
    V = VecOb(ck, H, H.run('w_smooth', [bs]), hook=pos, positive=('mass', 'density'))
    h = lambda k=None: t.fmul(t.fmul(root(t.fdiv(V.E('mass', k=k), V.E('density', k=k)), D), eta), wid)
    V.equal(nm('smoothing length of every particle is eta*width*(m/rho)^(1/D)'), 'radius', h())
    V.frame(nm('smoothing length update changes nothing else'), [F['radius']])
    # uniform variant
    H = Hydro(ck, m, ck.nat(D), D, F)
    bs = H.w.vec('bs', BODY)
    N = t.sym('N', 64, 2 ** 40)
    H.remote = REMOTE
    run = H.run('w_smooth_avg', [bs, N])
    run.ex.contracts['@MPI_Allreduce'] = allreduce('allsum')

    def hk(name, idx, g):
        return g.rng.randint(1, 9) if name == 'N' else pos(name, idx, g)
    V = VecOb(ck, H, run, hook=hk, positive=('mass', 'density'), regs=mpiregs(), pre=[t.ult(t.bv(0, 64), N)])
    k = t.sym('kspec', 64, 2 ** 31 - 2)
    tot = t.uf('allsum', (t.sum_(t.fc(0.0), V.n, h(k), k),), 'f')
    V.equal(nm('averaged smoothing length is the sum over all particles / N, the same for all'), 'radius', t.fdiv(tot, t.sitofp(N)))
    V.frame(nm('averaged smoothing length update changes nothing else'), [F['radius']])


if __name__ == '__main__':
    main('P12', body)
