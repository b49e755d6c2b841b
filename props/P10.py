"""kernel weights: support, sign, decay, scaling, normalisation"""
from kernlib import *

TOL = {'sinc_ker': 1e-4}


def body(ck):
    ck.build([(d, 'kernels.cc', d, ()) for d in (1, 2, 3)])
    ck.assume('machine arithmetic of the kernels read as real arithmetic; M_PI and the literal constants are their double values')
    hp = [t.flt(Z, H), t.fle(Z, R)]
    for D in (1, 2, 3):
        for K in KERNELS:
            k = Kern(ck, D, K)
            sinc = [t.fle(t.fc(3.0), t.sym(SINC, 'f')), t.fle(t.sym(SINC, 'f'), t.fc(12.0))] if K == 'sinc_ker' else []
            pre = hp + sinc
            kw = dict(hook=khook, n=300)
            # nothing beyond the smoothing length
            ck.valid_ob(k.name('zero beyond support'), k.w, ['ret'], lambda v: t.feq(v, Z), pre + [t.flt(H, R)], **kw)
            ck.cover('support precondition', True)
            # the value scales with h as h^-D in the ratio r/h
            def scaled(k=k, D=D):
                ck.tested(k.w, 20, hook=khook, pre=pre)
                c = real.Ctx()
                hd = t.fc(1.0)
                for _ in range(D):
                    hd = t.fmul(hd, H)
                c.facts = [t.flt(Z, H), t.fle(Z, Q)] + sinc
                a = t.fmul(k.W(t.fmul(Q, H), H), hd)
                return c.equal(a, k.W(Q, t.fc(1.0)))
            ck.ob(k.name('scales as h^-D w(r/h)'), scaled, lambda k=k, D=D: scale_search(ck, k, D))
            # sign and decay, on the ratio
            if K != 'super_gaussian':
                shape(ck, k, pre, sinc)
            # unit integral
            for n in k.sincs():
                norm_ob(ck, k, n)


def shape(ck, k, pre, sinc):
    one = t.fc(1.0)
    if k.K == 'sinc_ker':
        # sin is uninterpreted for the prover
        ck.bounded(k.name('positive inside and non-increasing'), lambda: decay_search(ck, k, 4000),
                   '4000 native samples; sin outside the prover')
        return

    def pos():
        ck.tested(k.w, 20, hook=khook, pre=pre)
        c = real.Ctx()
        return c.valid_split(t.flt(Z, k.W(Q, one)), [t.fle(Z, Q), t.flt(Q, one)])

    def dec():
        ck.tested(k.w, 20, hook=khook, pre=pre)
        w = C.prep(k.W(Q, one))
        c = real.Ctx()
        return c.valid_split(t.fle(C.deriv(w, Q), Z), [t.fle(Z, Q)] + C.interior(w))

    def jumps():
        """across the break points the value never steps up"""
        ck.tested(k.w, 20, hook=khook, pre=pre)
        w = C.prep(k.W(Q, one))
        pts = [0.0] + C.breaks(w, Q, 0.0, 4.0) + [4.0]
        for a, b, c_ in zip(pts, pts[1:], pts[2:]):
            l = C.mp_eval(C.piece(w, Q, a, b), {Q: mp(b)}, mpm())
            r = C.mp_eval(C.piece(w, Q, b, c_), {Q: mp(b)}, mpm())
            v = C.mp_eval(w, {Q: mp(b)}, mpm())
            if v > l + 1e-12 or r > v + 1e-12:
                return False, 'step up at r/h = %r' % b
        return True
    s = lambda: decay_search(ck, k, 1500)
    ck.ob(k.name('positive inside the support'), pos, s)
    ck.ob(k.name('non-increasing inside the pieces'), dec, s)
    ck.ob(k.name('non-increasing across the pieces'), jumps, s)


def mpm():
    import mpmath
    return mpmath


def mp(x):
    return mpm().mpf(x)


def decay_search(ck, k, n):
    def go(note):
        rng = random.Random(ck.rng.random())
        for i in range(n):
            h = rng.choice([1.0, rng.uniform(.05, 4)])
            m = rng.choice(k.sincs())
            a, b = sorted((rng.uniform(0, 1.2), rng.uniform(0, 1.2)))
            if i % 4 == 0:
                b = a + rng.choice([1e-3, 1e-5])
            if i % 16 == 1:
                a, b = 0.0, rng.uniform(0, 1)
            note((a * h, h, m))
            x, y = k.nW(a * h, h, m), k.nW(b * h, h, m)
            if y > x + 1e-9 * abs(x) + 1e-9 * k.nW(0., h, m) or (a < .99 and not x > 0) or (b > 1.000001 and y != 0):
                return dict(kernel=k.K, dimension=k.D, h=h, sinc_index=m, r=[a * h, b * h], weights=[x, y],
                            expected='positive inside the support, non-increasing')
        return n
    r = isolated(go, 60)
    if r[0] != 'ok':
        return dict(kernel=k.K, dimension=k.D, observed=str(r))
    return r[1] if isinstance(r[1], dict) else (None, r[1])


def scale_search(ck, k, D):
    def go(note):
        rng = random.Random(ck.rng.random())
        for i in range(500):
            h, q = rng.uniform(.05, 4), rng.uniform(0, 1.1)
            m = rng.choice(k.sincs())
            note((q, h))
            a, b = k.nW(q * h, h, m) * h ** D, k.nW(q, 1.0, m)
            if min(abs(q - x) for x in (1 / 3., .5, 2 / 3., 1.)) > 1e-6 and not close(a, b, 1e-7, 1e-6):
                return dict(kernel=k.K, dimension=D, q=q, h=h, sinc_index=m, scaled=[a, b])
        return 500
    r = isolated(go, 60)
    if r[0] != 'ok':
        return dict(observed=str(r))
    return r[1] if isinstance(r[1], dict) else (None, r[1])


def norm_ob(ck, k, n):
    D = k.D
    tol = TOL.get(k.K, 1e-10)
    st = {}

    def proof():
        ck.tested(k.w, 20, hook=khook)
        w = k.W(Q, t.fc(1.0))
        if n is not None:
            w = t.subst(w, {t.sym(SINC, 'f'): t.fc(n)})
        I, exact = C.integrate(w, Q, 0.0, 1.25, D - 1)
        I = float(I * SPHERE[D - 1])
        if abs(I - 1) > tol:
            st['cex'] = dict(kernel=k.K, dimension=D, sinc_index=n, h=1.0, integral_of_the_code_terms=I, expected=1.0)
        return abs(I - 1) <= tol, 'integral over space is %.12g' % I

    def search():
        N = 40000
        def go(note):
            s = 0.0
            for i in range(N):
                q = (i + .5) * 1.25 / N
                s += k.nW(q, 1.0, n) * q ** (D - 1)
            return s * 1.25 / N * SPHERE[D - 1]
        r = isolated(go, 60)
        if r[0] != 'ok' or abs(r[1] - 1) > max(2e-6, 2 * tol):
            return dict(kernel=k.K, dimension=D, sinc_index=n, h=1.0, native_integral=r[1], expected=1.0)
        return None, N
    ck.ob(k.name('unit integral' + ('' if n is None else ' index %g' % n)), proof, lambda: with_cex(st, search()), backend='exact piecewise integration / mpmath')


if __name__ == '__main__':
    main('P10', body)
