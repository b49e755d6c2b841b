"""symbolic derivative of terms, and exact / high precision integration of a
univariate piecewise term"""
import term as t
import real, sx
from fractions import Fraction as Fr

K = t.fc


# derivative of a function known by contract
UF = {'RHO': 'DRHO'}


def deriv(x, v, memo=None):
    """d x / d v of an ite-structured real term (inside the pieces)"""
    memo = {} if memo is None else memo
    if x in memo:
        return memo[x]
    memo[x] = r = _d(x, v, memo)
    return r


def _d(x, v, m):
    o, a = x.op, x.a
    if x is v:
        return K(1.0)
    if not any(y is v for y in t.walk(x)):
        return K(0.0)
    D = lambda y: deriv(y, v, m)
    if o == 'fadd':
        return t.fadd(D(a[0]), D(a[1]))
    if o == 'fsub':
        return t.fsub(D(a[0]), D(a[1]))
    if o == 'fmul':
        return t.fadd(t.fmul(D(a[0]), a[1]), t.fmul(a[0], D(a[1])))
    if o == 'fdiv':
        return t.fdiv(t.fsub(t.fmul(D(a[0]), a[1]), t.fmul(a[0], D(a[1]))), t.fmul(a[1], a[1]))
    if o == 'fneg':
        return t.fneg(D(a[0]))
    if o == 'ite':
        return t.ite(a[0], D(a[1]), D(a[2]))
    if o == 'fn':
        n = x.d
        if n == 'exp':
            return t.fmul(x, D(a[0]))
        if n == 'sin':
            return t.fmul(t.fn('cos', a[0]), D(a[0]))
        if n == 'cos':
            return t.fneg(t.fmul(t.fn('sin', a[0]), D(a[0])))
        if n == 'sqrt':
            return t.fdiv(D(a[0]), t.fmul(K(2.0), x))
        if n == 'log':
            return t.fdiv(D(a[0]), a[0])
        if n == 'fabs':
            return t.ite(t.flt(a[0], K(0.0)), t.fneg(D(a[0])), D(a[0]))
        if n == 'cbrt':
            return t.fdiv(D(a[0]), t.fmul(K(3.0), t.fmul(x, x)))
        if n == 'asinh':
            return t.fdiv(D(a[0]), t.fn('sqrt', t.fadd(K(1.0), t.fmul(a[0], a[0]))))
        if n == 'tanh':
            return t.fmul(t.fsub(K(1.0), t.fmul(x, x)), D(a[0]))
        if n == 'pow' and not any(y is v for y in t.walk(a[1])):
            return t.fmul(t.fmul(a[1], t.fn('pow', a[0], t.fsub(a[1], K(1.0)))), D(a[0]))
        if n in ('fmin', 'fmax'):
            c = t.flt(a[0], a[1])
            p, q = D(a[0]), D(a[1])
            return t.ite(c, p, q) if n == 'fmin' else t.ite(c, q, p)
    if o == 'uf' and x.d in UF and len(a) == 1:
        return t.fmul(t.uf(UF[x.d], a, 'f'), D(a[0]))
    raise sx.Unsupported('derivative of %s %s' % (o, x.d))


def conds(*xs):
    """comparisons deciding the pieces (fabs prepared away)"""
    r = []
    for y in t.walk(*xs):
        if y.op in ('flt', 'fle', 'feq') and y not in r:
            r.append(y)
    return r


def interior(*xs):
    """facts: no comparison sits on its boundary"""
    return [t.not_(t.feq(c.a[0], c.a[1])) for c in conds(*xs)]


def mp_eval(x, env, mp):
    """evaluate with mpmath"""
    memo = {}

    def go(y):
        if y in memo:
            return memo[y]
        o, a = y.op, y.a
        if o == 'c':
            r = bool(y.d) if y.s == 'b' else mp.mpf(y.d)
        elif y in env:
            r = env[y]
        elif o == 'fadd':
            r = go(a[0]) + go(a[1])
        elif o == 'fsub':
            r = go(a[0]) - go(a[1])
        elif o == 'fmul':
            r = go(a[0]) * go(a[1])
        elif o == 'fdiv':
            r = go(a[0]) / go(a[1])
        elif o == 'fneg':
            r = -go(a[0])
        elif o == 'flt':
            r = go(a[0]) < go(a[1])
        elif o == 'fle':
            r = go(a[0]) <= go(a[1])
        elif o == 'feq':
            r = go(a[0]) == go(a[1])
        elif o == 'not':
            r = not go(a[0])
        elif o == 'and':
            r = all(go(z) for z in a)
        elif o == 'or':
            r = any(go(z) for z in a)
        elif o == 'ite':
            r = go(a[1]) if go(a[0]) else go(a[2])
        elif o == 'isnan':
            r = False
        elif o == 'fn':
            b = [go(z) for z in a]
            n = y.d
            r = {'exp': mp.exp, 'sin': mp.sin, 'cos': mp.cos, 'sqrt': mp.sqrt, 'fabs': abs, 'log': mp.log,
                 'tanh': mp.tanh, 'asinh': mp.asinh, 'cbrt': mp.cbrt, 'pow': lambda p, q: p ** q, 'fmin': min, 'fmax': max}[n](*b)
        else:
            raise sx.Unsupported('mp %s' % o)
        memo[y] = r
        return r
    return go(x)


def breaks(x, v, lo, hi):
    """sorted points of (lo,hi) where a comparison of x can flip: roots of the
    affine-or-higher differences, found in exact rational normal form"""
    import sympy
    ctx = real.Ctx()
    S = sympy.Symbol('q')
    pts = set()
    x = ctx.prep(x)
    todo, seen = conds(x), set()
    while todo:
        c = todo.pop()
        if c in seen or c.op not in ('flt', 'fle', 'feq'):
            continue
        seen.add(c)
        it = [y.a[0] for y in t.walk(*c.a) if y.op == 'ite']
        it = [y for y in it if not any(z.op == 'ite' for z in t.walk(y))]
        if it:
            todo += conds(it[0])
            todo += conds(t.subst(c, {it[0]: t.TRUE}), t.subst(c, {it[0]: t.FALSE}))
            continue
        d = ctx.add(ctx.norm(c.a[0]), ctx.norm(c.a[1]), -1)
        p = poly1(ctx, d, v, S)
        if p is None or p.is_zero:
            continue
        for r in sympy.real_roots(p):
            f = float(r)
            if lo < f < hi:
                pts.add(f)
    return sorted(pts)


def poly1(ctx, r, v, S):
    """numerator polynomial of a Rat in the single symbol v, or None"""
    import sympy
    i = None
    for j, (k, d) in enumerate(ctx.atoms):
        if d is v:
            i = j
    e = sympy.Integer(0)
    for m, c in r.n.items():
        tm = sympy.Rational(c.numerator, c.denominator)
        for a, p in m:
            if a != i:
                return None
            tm *= S ** p
        e += tm
    for k, _ in r.d.items():
        for m, c in k:
            for a, p in m:
                if a != i:
                    return None
    return sympy.Poly(e, S)


def piece(x, v, lo, hi):
    """x with every comparison decided by its value at the middle of (lo,hi)
    (sound between consecutive break points)"""
    import mpmath
    mid = mpmath.mpf(lo + hi) / 2
    x = prep(x)
    while True:
        cs = [c for c in conds(x) if not any(y.op == 'ite' for y in t.walk(*c.a))]
        if not cs:
            return x
        x = t.subst(x, {c: (t.TRUE if mp_eval(c, {v: mid}, mpmath) else t.FALSE) for c in cs})


def prep(x):
    return real.prep(x, {})


def integrate(x, v, lo, hi, weight=0):
    """integral of x * v^weight over (lo,hi): (value, exact?)"""
    import sympy, mpmath
    mpmath.mp.dps = 30
    pts = [lo] + breaks(x, v, lo, hi) + [hi]
    tot, exact = mpmath.mpf(0), True
    for a, b in zip(pts, pts[1:]):
        p = piece(x, v, a, b)
        ctx = real.Ctx()
        r = ctx.norm(p)
        S = sympy.Symbol('q')
        q = poly1(ctx, r, v, S) if not r.d else None
        if q is not None:
            P = sympy.Poly(q * sympy.Poly(S ** weight, S), S).integrate(S)
            A, B_ = sympy.Rational(Fr(a).numerator, Fr(a).denominator), sympy.Rational(Fr(b).numerator, Fr(b).denominator)
            val = P.eval(B_) - P.eval(A)
            tot += mpmath.mpf(val.p) / val.q
        else:
            exact = False
            tot += mpmath.quad(lambda y: mp_eval(p, {v: y}, mpmath) * y ** weight, mpmath.linspace(a, b, 9))
    return tot, exact
