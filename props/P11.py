"""kernel gradients: derivative of the weight along the separation, radial,
odd, zero at zero separation and beyond the support"""
from kernlib import *


def ghook(D):
    def hk(name, idx, g):
        r = khook(name, idx, g)
        if r is None and name.startswith('x+'):
            h = g.env['*'](H)
            k = g.rng.random()
            if k < .1:
                return 0.0
            return h * g.rng.uniform(-1, 1) * g.rng.choice([1.0, 1.0, .3, 1.5])
        return r
    return hk


def body(ck):
    ck.build([(d, 'kernels.cc', d, ()) for d in (1, 2, 3)])
    ck.assume('machine arithmetic read as real arithmetic; literals below 1e-200 (the division guard) read as zero except in the zero-separation obligation')
    ck.assume('derivative taken inside the pieces; at the finitely many break distances the gradient is not constrained')
    for D in (1, 2, 3):
        for K in KERNELS:
            k = Kern(ck, D, K)
            hook = ghook(D)
            hp = [t.flt(Z, H)]
            if K == 'sinc_ker':
                hp += [t.fle(t.fc(3.0), t.sym(SINC, 'f')), t.fle(t.sym(SINC, 'f'), t.fc(12.0))]
            d2 = dot(k.xs, k.xs)
            r = t.fn('sqrt', d2) if D > 1 else t.fn('fabs', k.xs[0])
            # sinc: the series used below r/h = 1e-6/pi agrees to its truncation only
            away = [t.flt(t.fmul(t.fc(1e-5), H), r)] if K == 'sinc_ker' else [t.flt(Z, r)]
            for i in range(D):
                st = {}

                def proof(k=k, i=i, r=r, hp=hp, away=away, hook=hook, st=st):
                    ck.tested(k.g, 20, hook=hook, pre=hp)
                    ck.tested(k.w, 20, hook=khook, pre=hp + [t.fle(Z, R)])
                    c = real.Ctx(tiny=1e-200)
                    w = C.prep(k.W(R, H))
                    dw = C.deriv(w, R)
                    spec = t.fdiv(t.fmul(k.xs[i], t.subst(dw, {R: r})), r)
                    g = C.prep(k.g.cell(k.o, 8 * i))
                    wr = t.subst(w, {R: r})
                    fs = hp + away + C.interior(wr) + C.interior(g)
                    if k.K == 'sinc_ker':
                        fs = fs + [t.flt(t.fc(1e-6), t.fmul(t.fdiv(r, H), t.fc(math.pi)))]
                    x = c.equal(g, spec, fs)
                    if not x:
                        st['cex'] = ck.confirm(g, spec, fs, hook)
                    return x if x else (False, 'gradient differs from the derivative: %s' % (c.why and [t.show(z, 3)[:300] for z in c.why[:2]],))
                ck.ob(k.name('gradient component %d is the derivative of the weight' % i), proof,
                      lambda k=k, i=i, st=st: with_cex(st, fd_search(ck, k, i)))
                # oddness
                def odd(k=k, i=i, hp=hp, hook=hook):
                    ck.tested(k.g, 20, hook=hook, pre=hp)
                    c = real.Ctx()
                    g = k.g.cell(k.o, 8 * i)
                    gm = t.subst(g, {x: t.fneg(x) for x in k.xs})
                    return c.equal(g, t.fneg(gm), hp)
                ck.ob(k.name('gradient component %d is odd in the separation' % i), odd,
                      lambda k=k: odd_search(ck, k))
                zero = {x: Z for x in k.xs}

                def origin(k=k, i=i, hp=hp, hook=hook, zero=zero):
                    ck.tested(k.g, 20, hook=hook, pre=hp)
                    return real.Ctx().equal(t.subst(k.g.cell(k.o, 8 * i), zero), Z, hp)
                ck.ob(k.name('gradient component %d is zero at zero separation' % i), origin,
                      lambda k=k: odd_search(ck, k, True))
                far = t.flt(H, r)

                def outside(k=k, i=i, hp=hp, far=far, hook=hook):
                    ck.tested(k.g, 20, hook=hook, pre=hp)
                    return real.Ctx().equal(k.g.cell(k.o, 8 * i), Z, hp + [far])
                ck.ob(k.name('gradient component %d is zero beyond the support' % i), outside,
                      lambda k=k: odd_search(ck, k))


def native_g(ck, k, xs, h, n):
    import ctypes
    nat = ck.nat(k.D)
    if n is not None:
        ctypes.memmove(nat.addr(SINC[2:].split('+')[0]), ctypes.byref(ctypes.c_double(n)), 8)
    a = (ctypes.c_double * k.D)(*xs)
    o = (ctypes.c_double * k.D)()
    f = getattr(nat.lib, 'w_g_' + k.K)
    f.restype = None
    f(a, ctypes.c_double(h), o)
    return list(o)


def fd_search(ck, k, i, n=1500):
    def go(note):
        rng = random.Random(ck.rng.random())
        for _ in range(n):
            h = rng.choice([1.0, rng.uniform(.05, 4)])
            m = rng.choice(k.sincs())
            q = rng.uniform(0.01, 1.1)
            u = [rng.gauss(0, 1) for _ in range(k.D)]
            if rng.random() < .3:
                u = [1.0 if j == rng.randrange(k.D) else 0.0 for j in range(k.D)]
            l = math.sqrt(sum(a * a for a in u))
            if l == 0:
                continue
            xs = [a / l * q * h for a in u]
            r = math.sqrt(sum(a * a for a in xs))
            if min(abs(q - b) for b in (1 / 3., .5, 2 / 3., 1.)) < 1e-3:
                continue
            e = 1e-5 * h
            note((xs, h, m))
            d = (k.nW(r + e, h, m) - k.nW(r - e, h, m)) / (2 * e)
            g = native_g(ck, k, xs, h, m)
            sc = k.nW(0.0, h, m) / h
            if abs(g[i] - d * xs[i] / r) > 1e-6 * sc:
                return dict(kernel=k.K, dimension=k.D, separation=xs, h=h, sinc_index=m, gradient=g, component=i,
                            derivative_of_weight=d * xs[i] / r)
        return n
    r = isolated(go, 60)
    if r[0] != 'ok':
        return dict(observed=str(r))
    return r[1] if isinstance(r[1], dict) else (None, r[1])


def odd_search(ck, k, origin=False, n=500):
    def go(note):
        rng = random.Random(ck.rng.random())
        for _ in range(n):
            h, m = rng.uniform(.05, 4), rng.choice(k.sincs())
            xs = [h * rng.uniform(-1.2, 1.2) * (0.0 if origin else 1.0) for _ in range(k.D)]
            note((xs, h, m))
            a, b = native_g(ck, k, xs, h, m), native_g(ck, k, [-x for x in xs], h, m)
            r = math.sqrt(sum(x * x for x in xs))
            if any(not close(x, -y, 1e-9, 1e-9) for x, y in zip(a, b)) or (r > h * 1.000001 and any(a)) or (origin and any(a)):
                return dict(kernel=k.K, dimension=k.D, separation=xs, h=h, sinc_index=m, gradients=[a, b])
        return n
    r = isolated(go, 60)
    if r[0] != 'ok':
        return dict(observed=str(r))
    return r[1] if isinstance(r[1], dict) else (None, r[1])


if __name__ == '__main__':
    main('P11', body)
