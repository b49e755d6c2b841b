"""Hash-consed terms.  sorts: 'b' bool, int w (bit-vector of width w), 'f' double.
Floating operations are kept exactly as the IR performs them; only folds that
IEEE-754 guarantees are applied."""
import math, struct, itertools, sys
sys.setrecursionlimit(1000000)

_tab = {}


class T:
    __slots__ = ('op', 'a', 's', 'd', 'id', '_u', '_h')

    def __repr__(self):
        return show(self, 4)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    @property
    def c(self):
        return self.op == 'c'


_ctr = itertools.count()


def mk(op, a=(), s='b', d=None):
    a = tuple(a)
    kd = d
    if isinstance(d, float):
        kd = ('F', struct.pack('>d', d))
    key = (op, a, s, kd)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.a, t.s, t.d = op, a, s, d
        t.id = next(_ctr)
        t._h = t.id * 2654435761 & 0xffffffff
        t._u = None
        _tab[key] = t
    return t


def show(t, depth=3):
    if t.op == 'c':
        return repr(t.d)
    if t.op == 'sym':
        return str(t.d)
    if depth <= 0:
        return '..'
    d = '' if t.d is None else ':' + str(t.d)[:40]
    return '(%s%s %s)' % (t.op, d, ' '.join(show(x, depth - 1) for x in t.a))


# ---------------------------------------------------------------- booleans
TRUE = mk('c', (), 'b', True)
FALSE = mk('c', (), 'b', False)


def B(v):
    return TRUE if v else FALSE


def not_(x):
    if x.op == 'c':
        return B(not x.d)
    if x.op == 'not':
        return x.a[0]
    return mk('not', (x,), 'b')


def and_(*xs):
    out = []
    seen = set()
    for x in xs:
        for y in (x.a if x.op == 'and' else (x,)):
            if y is FALSE:
                return FALSE
            if y is TRUE or y in seen:
                continue
            seen.add(y)
            out.append(y)
    for y in out:
        if not_(y) in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return mk('and', out, 'b')


def or_(*xs):
    out = []
    seen = set()
    for x in xs:
        for y in (x.a if x.op == 'or' else (x,)):
            if y is TRUE:
                return TRUE
            if y is FALSE or y in seen:
                continue
            seen.add(y)
            out.append(y)
    for y in out:
        if not_(y) in seen:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    # x or (not x and r) = x or r
    again = True
    while again and len(out) <= 40:
        again = False
        lits = {y for y in out if y.op != 'and'}
        nl = {not_(y) for y in lits}
        res, seen2 = [], set()
        for y in out:
            if y.op == 'and':
                if any(z in lits for z in y.a):
                    again = True
                    continue
                z = [q for q in y.a if q not in nl]
                if len(z) != len(y.a):
                    again = True
                    y = and_(*z)
                    if y is TRUE:
                        return TRUE
            for q in (y.a if y.op == 'or' else (y,)):
                if q not in seen2:
                    seen2.add(q)
                    res.append(q)
        out = res
        for y in out:
            if not_(y) in seen2:
                return TRUE
        if not again and len(out) <= 12:
            # factor two conjunctions
            for i in range(len(out)):
                for j in range(i + 1, len(out)):
                    r = _or2(out[i], out[j])
                    if r is not None:
                        if r is TRUE:
                            return TRUE
                        rest = [out[q] for q in range(len(out)) if q not in (i, j)]
                        out = rest + [y for y in (r.a if r.op == 'or' else (r,)) if y not in rest]
                        again = True
                        break
                if again:
                    break
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return mk('or', out, 'b')


def _or2(x, y):
    """simpler form of x or y when one exists"""
    if x.op != 'and' and y.op != 'and':
        return None
    xs_ = set(x.a) if x.op == 'and' else {x}
    ys_ = set(y.a) if y.op == 'and' else {y}
    com = xs_ & ys_
    if not com:
        return None
    rx, ry = xs_ - com, ys_ - com
    if not rx or not ry:
        return and_(*com)
    nx, ny = and_(*rx), and_(*ry)
    if nx is not_(ny) or ny is not_(nx):
        return and_(*com)
    o = or_(nx, ny)
    if o is TRUE:
        return and_(*com)
    if o.op != 'or' or len(o.a) < 2 or set(o.a) != {nx, ny}:
        return and_(*(list(com) + [o]))
    if len(com) >= 1:
        return and_(*(list(com) + [o]))
    return None


def implies(a, b):
    return or_(not_(a), b)


def ite(c, x, y):
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if x is y:
        return x
    if c.op == 'not':
        return ite(c.a[0], y, x)
    if x.s == 'b':
        if x is TRUE:
            return or_(c, y)
        if x is FALSE:
            return and_(not_(c), y)
        if y is TRUE:
            return or_(not_(c), x)
        if y is FALSE:
            return and_(c, x)
    if x.op == 'ite' and x.a[0] is c:
        x = x.a[1]
    if y.op == 'ite' and y.a[0] is c:
        y = y.a[2]
    if x is y:
        return x
    if y.op == 'ite' and y.a[1] is x:
        return ite(or_(c, y.a[0]), x, y.a[2])
    if x.op == 'ite' and x.a[2] is y:
        return ite(and_(c, x.a[0]), x.a[1], y)
    if c.op == 'eq' and (c.a[0] is y and c.a[1] is x or c.a[1] is y and c.a[0] is x):
        return y
    # integer sum guarded by "trip count > 0"
    if isinstance(x.s, int) and (x.op == 'lin' or y.op == 'lin'):
        for p, q, flip in ((x, y, False), (y, x, True)):
            if p.op == 'lin' and any(z.op == 'fold' for z in p.a):
                dlt = add(p, neg(q))
                if dlt.op == 'fold' and dlt.a[0].c and dlt.a[0].d == 0:
                    r = ite(c, bv(0, x.s), dlt) if flip else ite(c, dlt, bv(0, x.s))
                    if r.op == 'fold':
                        return add(q, r)
    # sum guarded by "trip count > 0"
    for p, q, cc in ((x, y, c), (y, x, not_(c))):
        if p.op in ('sum', 'fold') and p.a[0] is q and p.a[1].op == 'ite' and p.a[1].a[0] in (cc, not_(cc)):
            n1 = p.a[1].a[1 if p.a[1].a[0] is cc else 2]
            if nonzero_guard(n1, cc):
                return mk(p.op, (p.a[0], n1, p.a[2]), p.s, p.d)
        if p.op == 'sum' and p.a[0] is q and nonzero_guard(p.a[1], cc):
            return p
        if p.op == 'fold' and p.a[0] is q and nonzero_guard(p.a[1], cc):
            return p
        if p.op == 'fadd' and q.op == 'c':
            pass
    return mk('ite', (c, x, y), x.s)


def nonzero_guard(n, c):
    """c is implied-equivalent to n>0 (n unsigned, small): i.e. not c -> n==0"""
    if c.op == 'not' and c.a[0].op == 'eq':
        e = c.a[0]
        if e.a[0] is n and e.a[1].c and e.a[1].d == 0:
            return True
        if e.a[1] is n and e.a[0].c and e.a[0].d == 0:
            return True
    if c.op in ('slt', 'ult') and c.a[0].c and c.a[0].d == 0:
        x = c.a[1]
        return strip_ext(x) is strip_ext(n)
    return False


def strip_ext(x):
    while True:
        if x.op in ('zext', 'sext', 'trunc') and umax(x.a[0]) < (1 << (min(x.s, x.a[0].s) - 1)):
            x = x.a[0]
        else:
            return x


# ---------------------------------------------------------------- bit-vectors
def M(w):
    return (1 << w) - 1


def bv(v, w):
    return mk('c', (), w, v & M(w))


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


def umax(t):
    if t._u is not None:
        return t._u
    w, o, a = t.s, t.op, t.a
    m = M(w)
    r = m
    if o == 'c':
        r = t.d
    elif o == 'sym' and isinstance(t.d, Sy) and t.d.umax is not None:
        r = t.d.umax
    elif o == 'zext':
        r = umax(a[0])
    elif o == 'sext':
        if umax(a[0]) < 1 << (a[0].s - 1):
            r = umax(a[0])
    elif o == 'trunc':
        u = umax(a[0])
        r = u if u <= m else m
    elif o == 'bvand':
        r = min(umax(x) for x in a)
    elif o in ('bvor', 'bvxor'):
        k = 0
        for x in a:
            k = max(k, umax(x).bit_length())
        r = min(m, (1 << k) - 1)
    elif o == 'lshr' and a[1].c:
        r = umax(a[0]) >> a[1].d
    elif o == 'lshr':
        r = umax(a[0])
    elif o == 'shl' and a[1].c:
        u = umax(a[0]) << a[1].d
        r = u if u <= m else m
    elif o == 'ite':
        r = max(umax(a[1]), umax(a[2]))
    elif o == 'lin':
        tot, ok = t.d[0], True
        for x, k in zip(a, t.d[1]):
            if k >> (w - 1):
                ok = False
                break
            tot += umax(x) * k
        if ok and tot <= m:
            r = tot
    elif o == 'udiv' and a[1].c and a[1].d:
        r = umax(a[0]) // a[1].d
    elif o == 'urem' and a[1].c and a[1].d:
        r = min(umax(a[0]), a[1].d - 1)
    elif o == 'b2i':
        r = 1
    t._u = r
    return r


class Sy:
    """symbol payload"""
    __slots__ = ('name', 'umax', 'info')

    def __init__(self, name, umax=None, info=None):
        self.name, self.umax, self.info = name, umax, info

    def __repr__(self):
        return self.name

    def __hash__(self):
        return hash((self.name, self.umax))

    def __eq__(self, o):
        return isinstance(o, Sy) and (self.name, self.umax) == (o.name, o.umax)


def sym(name, s, umax=None):
    return mk('sym', (), s, Sy(name, umax))


def _lin_parts(t):
    """-> const, {atom: coeff}"""
    w = t.s
    if t.op == 'c':
        return t.d, {}
    if t.op == 'lin':
        return t.d[0], dict(zip(t.a, t.d[1]))
    if t.op == 'shl' and t.a[1].c and t.a[1].d < w:
        c, p = _lin_parts(t.a[0])
        k = 1 << t.a[1].d
        return c * k & M(w), {x: q * k & M(w) for x, q in p.items()}
    return 0, {t: 1}


def _mklin(c, p, w):
    p = {x: k & M(w) for x, k in p.items() if k & M(w)}
    c &= M(w)
    if not p:
        return bv(c, w)
    if c == 0 and len(p) == 1:
        (x, k), = p.items()
        if k == 1:
            return x
    it = sorted(p.items(), key=lambda q: q[0].id)
    return mk('lin', [x for x, _ in it], w, (c, tuple(k for _, k in it)))


def add(x, y):
    w = x.s
    c1, p1 = _lin_parts(x)
    c2, p2 = _lin_parts(y)
    for k, v in p2.items():
        p1[k] = p1.get(k, 0) + v
    return _mklin(c1 + c2, p1, w)


def neg(x):
    c, p = _lin_parts(x)
    return _mklin(-c, {k: -v for k, v in p.items()}, x.s)


def sub(x, y):
    if x.op == 'ite' and y.op == 'ite' and x.a[0] is y.a[0]:
        d = add(x.a[1], neg(y.a[1]))
        if d is add(x.a[2], neg(y.a[2])):
            return d                      # end - begin of a possibly null pointer pair
    return add(x, neg(y))


def mul(x, y):
    w = x.s
    if y.c:
        x, y = y, x
    if x.c:
        if y.op == 'ite' and (y.a[1].c or y.a[2].c) and not (y.a[1].op == 'ite' or y.a[2].op == 'ite'):
            return ite(y.a[0], mul(x, y.a[1]), mul(x, y.a[2]))
        c, p = _lin_parts(y)
        return _mklin(c * x.d, {k: v * x.d for k, v in p.items()}, w)
    if x.id > y.id:
        x, y = y, x
    return mk('mul', (x, y), w)


def _push_ite(f, x, *rest):
    """apply f through an ite of constants"""
    if x.op == 'ite' and x.a[1].c and x.a[2].c:
        return ite(x.a[0], f(x.a[1], *rest), f(x.a[2], *rest))
    return None


def bvand(x, y):
    w = x.s
    if x.c and not y.c:
        x, y = y, x
    if x is y:
        return x
    if y.c:
        if x.c:
            return bv(x.d & y.d, w)
        if y.d == 0:
            return y
        if y.d == M(w):
            return x
        # mask that does not remove anything
        if (y.d + 1) & y.d == 0 and umax(x) <= y.d:
            return x
        if x.op == 'bvand' and x.a[1].c:
            return bvand(x.a[0], bv(x.a[1].d & y.d, w))
        if x.op == 'zext':
            mm = y.d & M(x.a[0].s)
            return zext(bvand(x.a[0], bv(mm, x.a[0].s)), w)
        if x.op == 'ite' and (x.a[1].c or x.a[2].c):
            return ite(x.a[0], bvand(x.a[1], y), bvand(x.a[2], y))
        if umax(x) < (y.d & -y.d):
            return bv(0, w)
        if x.op == 'bvor':
            p, q = bvand(x.a[0], y), bvand(x.a[1], y)
            if p.c or q.c:
                return bvor(p, q)
        return mk('bvand', (x, y), w)
    if x.id > y.id:
        x, y = y, x
    return mk('bvand', (x, y), w)


def bvor(x, y):
    w = x.s
    if x.c and not y.c:
        x, y = y, x
    if x is y:
        return x
    if y.c:
        if x.c:
            return bv(x.d | y.d, w)
        if y.d == 0:
            return x
        if y.d == M(w):
            return y
        if x.op == 'bvor' and x.a[1].c:
            return bvor(x.a[0], bv(x.a[1].d | y.d, w))
        if x.op == 'ite' and (x.a[1].c or x.a[2].c):
            return ite(x.a[0], bvor(x.a[1], y), bvor(x.a[2], y))
    return mk('bvor', (x, y), w) if y.c or x.id < y.id else mk('bvor', (y, x), w)


def bvxor(x, y):
    w = x.s
    if x.c and not y.c:
        x, y = y, x
    if x is y:
        return bv(0, w)
    if y.c:
        if x.c:
            return bv(x.d ^ y.d, w)
        if y.d == 0:
            return x
        if x.op == 'ite' and (x.a[1].c or x.a[2].c):
            return ite(x.a[0], bvxor(x.a[1], y), bvxor(x.a[2], y))
    return mk('bvxor', (x, y), w) if y.c or x.id < y.id else mk('bvxor', (y, x), w)


def shl(x, y):
    w = x.s
    if y.c:
        if y.d == 0:
            return x
        if y.d >= w:
            return bv(0, w)
        if x.c:
            return bv(x.d << y.d, w)
        if x.op == 'shl' and x.a[1].c:
            return shl(x.a[0], bv(x.a[1].d + y.d, w))
        if x.op == 'ite' and x.a[1].c and x.a[2].c:
            return ite(x.a[0], shl(x.a[1], y), shl(x.a[2], y))
        if x.op == 'lin':
            return mul(x, bv(1 << y.d, w))
    return mk('shl', (x, y), w)


def lshr(x, y):
    w = x.s
    if y.c:
        if y.d == 0:
            return x
        if y.d >= w or umax(x) >> y.d == 0:
            return bv(0, w)
        if x.c:
            return bv(x.d >> y.d, w)
        if x.op == 'lshr' and x.a[1].c:
            return lshr(x.a[0], bv(x.a[1].d + y.d, w))
        if x.op == 'zext':
            return zext(lshr(x.a[0], bv(y.d, x.a[0].s)), w)
        if x.op == 'ite' and (x.a[1].c or x.a[2].c):
            return ite(x.a[0], lshr(x.a[1], y), lshr(x.a[2], y))
        if x.op == 'lin' and umax(x) < M(w):
            k = 1 << y.d
            if x.d[0] % k == 0 and all(q % k == 0 for q in x.d[1]):
                return _mklin(x.d[0] // k, {a: q // k for a, q in zip(x.a, x.d[1])}, w)
        if x.op == 'shl' and x.a[1].c and x.a[1].d == y.d and umax(x.a[0]) << y.d <= M(w):
            return x.a[0]
        if x.op == 'bvor':
            p, q = lshr(x.a[0], y), lshr(x.a[1], y)
            if p.c or q.c:
                return bvor(p, q)
    return mk('lshr', (x, y), w)


def ashr(x, y):
    w = x.s
    if umax(x) < 1 << (w - 1):
        return lshr(x, y)
    if y.c and x.c:
        return bv(sgn(x.d, w) >> min(y.d, w - 1), w)
    return mk('ashr', (x, y), w)


def udiv(x, y):
    w = x.s
    if x.c and y.c and y.d:
        return bv(x.d // y.d, w)
    if y.c and y.d == 1:
        return x
    if y.c and y.d and x.op == 'lin' and umax(x) < M(w):
        if x.d[0] % y.d == 0 and all(q % y.d == 0 for q in x.d[1]):
            return _mklin(x.d[0] // y.d, {a: q // y.d for a, q in zip(x.a, x.d[1])}, w)
    if y.c and y.d and y.d & (y.d - 1) == 0:
        return lshr(x, bv(y.d.bit_length() - 1, w))
    return mk('udiv', (x, y), w)


def urem(x, y):
    w = x.s
    if x.c and y.c and y.d:
        return bv(x.d % y.d, w)
    if y.c and umax(x) < y.d:
        return x
    if y.c and y.d and y.d & (y.d - 1) == 0:
        return bvand(x, bv(y.d - 1, w))
    return mk('urem', (x, y), w)


def sdiv(x, y):
    w = x.s
    if x.c and y.c and y.d:
        a, b = sgn(x.d, w), sgn(y.d, w)
        q = abs(a) // abs(b)
        return bv(q if (a < 0) == (b < 0) else -q, w)
    if umax(x) < 1 << (w - 1) and umax(y) < 1 << (w - 1):
        return udiv(x, y)
    if y.c and sgn(y.d, w) > 0:
        # exact division of a linear form by its common factor (pointer differences)
        if x.op == 'lin' and all(sgn(q, w) % y.d == 0 for q in x.d[1]) and sgn(x.d[0], w) % y.d == 0:
            bound = abs(sgn(x.d[0], w)) + sum(abs(sgn(q, w)) * umax(a) for a, q in zip(x.a, x.d[1]))
            if bound < 1 << (w - 1):
                return _mklin(sgn(x.d[0], w) // y.d, {a: sgn(q, w) // y.d for a, q in zip(x.a, x.d[1])}, w)
    return mk('sdiv', (x, y), w)


def srem(x, y):
    w = x.s
    if x.c and y.c and y.d:
        a, b = sgn(x.d, w), sgn(y.d, w)
        r = abs(a) % abs(b)
        return bv(-r if a < 0 else r, w)
    if umax(x) < 1 << (w - 1) and umax(y) < 1 << (w - 1):
        return urem(x, y)
    return mk('srem', (x, y), w)


def zext(x, w):
    if x.s == w:
        return x
    if x.s == 'b':
        return ite(x, bv(1, w), bv(0, w))
    if x.c:
        return bv(x.d, w)
    if x.op == 'zext':
        return zext(x.a[0], w)
    if x.op == 'ite' and (x.a[1].c or x.a[2].c):
        return ite(x.a[0], zext(x.a[1], w), zext(x.a[2], w))
    if x.op == 'lin':
        u = umax(x)
        tot = x.d[0]
        ok = True
        for a_, q in zip(x.a, x.d[1]):
            tot += q * umax(a_)
        if tot <= M(x.s):
            return _mklin(x.d[0], {zext(a_, w): q for a_, q in zip(x.a, x.d[1])}, w)
    if x.op == 'trunc' and x.a[0].s == w and umax(x.a[0]) <= M(x.s):
        return x.a[0]
    if x.op == 'trunc' and x.a[0].s == w:
        return bvand(x.a[0], bv(M(x.s), w))
    return mk('zext', (x,), w)


def sext(x, w):
    if x.s == w:
        return x
    if x.s == 'b':
        return ite(x, bv(M(w), w), bv(0, w))
    if x.c:
        return bv(sgn(x.d, x.s), w)
    if umax(x) < 1 << (x.s - 1):
        return zext(x, w)
    if x.op == 'ite' and (x.a[1].c or x.a[2].c):
        return ite(x.a[0], sext(x.a[1], w), sext(x.a[2], w))
    return mk('sext', (x,), w)


def trunc(x, w):
    if x.s == w:
        return x
    if x.c:
        return bv(x.d, w)
    if x.op in ('zext', 'sext'):
        s = x.a[0].s
        if s == w:
            return x.a[0]
        if s > w:
            return trunc(x.a[0], w)
        return zext(x.a[0], w) if x.op == 'zext' else sext(x.a[0], w)
    if x.op == 'trunc':
        return trunc(x.a[0], w)
    if x.op == 'fold' and x.a[2].op == 'lin' and x.d[1] in x.a[2].a:
        p = dict(zip(x.a[2].a, x.a[2].d[1]))
        if p.pop(x.d[1]) == 1 and not any(depends(y, {x.d[1]}) for y in p):
            ca = sym('#tr', w)
            return fold_(trunc(x.a[0], w), x.a[1], add(ca, trunc(_mklin(x.a[2].d[0], p, x.s), w)), x.d[0], ca)
    if x.op == 'ite' and (x.a[1].c or x.a[2].c):
        return ite(x.a[0], trunc(x.a[1], w), trunc(x.a[2], w))
    if x.op == 'lin':
        p = {}
        for a_, q in zip(x.a, x.d[1]):
            ta = trunc(a_, w)
            p[ta] = p.get(ta, 0) + q
        c0 = x.d[0]
        extra = {}
        for k, v in p.items():
            c1, p1 = _lin_parts(k)
            c0 += c1 * v
            for kk, vv in p1.items():
                extra[kk] = extra.get(kk, 0) + vv * v
        return _mklin(c0, extra, w)
    if x.op in ('bvand', 'bvor', 'bvxor'):
        f = {'bvand': bvand, 'bvor': bvor, 'bvxor': bvxor}[x.op]
        return f(trunc(x.a[0], w), trunc(x.a[1], w))
    if w == 1:
        return mk('trunc', (x,), 1)
    return mk('trunc', (x,), w)


def eq(x, y):
    if x is y:
        return TRUE
    if x.c and y.c:
        return B(x.d == y.d)
    if x.s == 'b':
        if x.c:
            x, y = y, x
        if y is TRUE:
            return x
        if y is FALSE:
            return not_(x)
        return mk('eq', (x, y) if x.id < y.id else (y, x), 'b')
    if x.c:
        x, y = y, x
    if y.c:
        if y.d > umax(x) or y.d < umin(x):
            return FALSE
        if x.op == 'ite' and (x.a[1].c or x.a[2].c):
            return ite(x.a[0], eq(x.a[1], y), eq(x.a[2], y))
        if x.op == 'zext':
            return eq(x.a[0], bv(y.d, x.a[0].s))
    d = sub(x, y) if isinstance(x.s, int) else None
    if d is not None and d.c:
        return B(d.d == 0)
    if d is not None and d.op == 'lin' and len(d.a) == 1 and not y.c and d.d[1][0] & 1 == 0 or \
            (d is not None and d.op == 'lin' and len(d.a) == 1 and d.d[1][0] != 1):
        # k*x + c == 0 with x small: divide
        k, c0, a0 = d.d[1][0], d.d[0], d.a[0]
        w = x.s
        sk, sc = sgn(k, w), sgn(c0, w)
        if sk < 0:
            sk, sc = -sk, -sc
        if abs(sk) * umax(a0) + abs(sc) < 1 << (w - 1):
            if -sc % sk:
                return FALSE
            v = -sc // sk
            if v < 0 or v > umax(a0):
                return FALSE
            if not (y.c and x is a0):
                return eq(a0, bv(v, w))
    if d is not None and d.op == 'lin' and not y.c:
        ks = [sgn(k, x.s) for k in d.d[1]]
        g = 0
        for k in ks + [sgn(d.d[0], x.s)]:
            g = math.gcd(g, abs(k))
        if g > 1:
            tot = abs(sgn(d.d[0], x.s)) + sum(abs(k) * umax(a_) for k, a_ in zip(ks, d.a))
            if tot < 1 << (x.s - 1):
                c0 = sgn(d.d[0], x.s) // g
                pos = _mklin(max(c0, 0), {a_: k // g for k, a_ in zip(ks, d.a) if k > 0}, x.s)
                ng = _mklin(max(-c0, 0), {a_: -k // g for k, a_ in zip(ks, d.a) if k < 0}, x.s)
                return eq(pos, ng) if (pos, ng) != (x, y) and (ng, pos) != (x, y) else mk('eq', (x, y) if x.id < y.id else (y, x), 'b')
    return mk('eq', (x, y) if (y.c or x.id < y.id) else (y, x), 'b')


def umin(t):
    if t.c:
        return t.d
    if t.op == 'ite':
        return min(umin(t.a[1]), umin(t.a[2]))
    if t.op == 'zext':
        return umin(t.a[0])
    if t.op == 'bvor':
        return max(umin(x) for x in t.a)
    if t.op == 'lshr' and t.a[1].c:
        return umin(t.a[0]) >> t.a[1].d if t.a[1].d < t.s else 0
    if t.op == 'lin' and all(k < 1 << (t.s - 1) for k in t.d[1]):
        tot = t.d[0] + sum(umax(a) * k for a, k in zip(t.a, t.d[1]))
        if tot <= M(t.s):
            return t.d[0] + sum(umin(a) * k for a, k in zip(t.a, t.d[1]))
    return 0


def ult(x, y):
    if x is y:
        return FALSE
    if x.c and y.c:
        return B(x.d < y.d)
    if umax(x) < umin(y):
        return TRUE
    if umin(x) >= umax(y):
        return FALSE
    if y.c and y.d == 1:
        return eq(x, bv(0, x.s))
    for p, f in ((x, lambda v: ult(v, y)), (y, lambda v: ult(x, v))):
        if p.op == 'ite' and p.a[1].c and p.a[2].c:
            return ite(p.a[0], f(p.a[1]), f(p.a[2]))
    if x.op == 'zext' and y.op == 'zext' and x.a[0].s == y.a[0].s:
        return ult(x.a[0], y.a[0])
    return mk('ult', (x, y), 'b')


def slt(x, y):
    if x is y:
        return FALSE
    w = x.s
    if x.c and y.c:
        return B(sgn(x.d, w) < sgn(y.d, w))
    h = 1 << (w - 1)
    if umax(x) < h and umax(y) < h:
        return ult(x, y)
    for p, f in ((x, lambda v: slt(v, y)), (y, lambda v: slt(x, v))):
        if p.op == 'ite' and p.a[1].c and p.a[2].c:
            return ite(p.a[0], f(p.a[1]), f(p.a[2]))
    return mk('slt', (x, y), 'b')


def ule(x, y):
    return not_(ult(y, x))


def sle(x, y):
    return not_(slt(y, x))


# ---------------------------------------------------------------- doubles
def fc(v):
    return mk('c', (), 'f', float(v))


def _fop(op, f):
    def g(x, y):
        if x.c and y.c:
            try:
                return fc(f(x.d, y.d))
            except (ZeroDivisionError, OverflowError):
                pass
        # push through ite with const arms (bool->double multipliers etc.)
        return mk(op, (x, y), 'f')
    return g


def _div(a, b):
    if b == 0:
        if a == 0 or a != a:
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1, b)
    return a / b


fadd = _fop('fadd', lambda a, b: a + b)
fsub = _fop('fsub', lambda a, b: a - b)
fmul = _fop('fmul', lambda a, b: a * b)
fdiv = _fop('fdiv', _div)


def fneg(x):
    if x.c:
        return fc(-x.d)
    if x.op == 'fneg':
        return x.a[0]
    return mk('fneg', (x,), 'f')


MATH = {
    'sqrt': lambda x: math.sqrt(x) if x >= 0 else math.nan,
    'fabs': abs, 'exp': math.exp, 'log': math.log, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan,
    'floor': lambda x: float(math.floor(x)) if math.isfinite(x) else x,
    'ceil': lambda x: float(math.ceil(x)) if math.isfinite(x) else x,
    'pow': lambda x, y: math.pow(x, y), 'atan2': math.atan2, 'acos': math.acos, 'asin': math.asin,
    'atan': math.atan,
    'fmod': math.fmod, 'round': lambda x: math.copysign(math.floor(abs(x) + .5), x),
    'tanh': math.tanh, 'cbrt': lambda x: math.copysign(abs(x) ** (1 / 3), x), 'log10': math.log10,
    'asinh': math.asinh, 'log1p': math.log1p, 'expm1': math.expm1,
    'trunc': lambda x: float(math.trunc(x)) if math.isfinite(x) else x,
    'exp2': lambda x: 2.0 ** x, 'sinh': math.sinh, 'cosh': math.cosh, 'hypot': math.hypot,
    'copysign': math.copysign, 'rint': lambda x: float(round(x)), 'log2': math.log2,
    'f32': lambda x: struct.unpack('f', struct.pack('f', x))[0],
    'fmin': lambda a, b: b if a != a else (a if b != b else min(a, b)),
    'fmax': lambda a, b: b if a != a else (a if b != b else max(a, b)),
}


def fn(name, *xs):
    if name == 'pow' and xs[1].c:
        e = xs[1].d
        if e == 2.0:
            return fmul(xs[0], xs[0])      # exact: pow(x,2) correctly rounded by glibc (documented)
        if e == 1.0:
            return xs[0]
        if e == 0.0:
            return fc(1.0)
    if all(x.c for x in xs):
        try:
            return fc(MATH[name](*[x.d for x in xs]))
        except (ValueError, OverflowError):
            pass
    return mk('fn', xs, 'f', name)


def feq(x, y):
    if x.c and y.c:
        return B(x.d == y.d)
    return mk('feq', (x, y) if x.id < y.id else (y, x), 'b')


def flt(x, y):
    if x.c and y.c:
        return B(x.d < y.d)
    if x is y:
        return FALSE
    return mk('flt', (x, y), 'b')


def fle(x, y):
    if x.c and y.c:
        return B(x.d <= y.d)
    return mk('fle', (x, y), 'b')


def isnan(x):
    if x.c:
        return B(x.d != x.d)
    if x.op in ('sitofp', 'uitofp'):
        return FALSE
    return mk('isnan', (x,), 'b')


def sitofp(x):
    if x.c:
        return fc(float(sgn(x.d, x.s)))
    if x.op == 'ite' and (x.a[1].c or x.a[2].c):
        return ite(x.a[0], sitofp(x.a[1]), sitofp(x.a[2]))
    if x.op == 'sext':
        return sitofp(x.a[0])
    if umax(x) < 1 << (x.s - 1):
        return uitofp(x)
    return mk('sitofp', (x,), 'f')


def uitofp(x):
    if x.s == 'b':
        return ite(x, fc(1.0), fc(0.0))
    if x.c:
        return fc(float(x.d))
    if x.op == 'ite' and (x.a[1].c or x.a[2].c):
        return ite(x.a[0], uitofp(x.a[1]), uitofp(x.a[2]))
    if x.op == 'zext':
        return uitofp(x.a[0])
    return mk('uitofp', (x,), 'f')


def fptoui(x, w):
    if x.c and 0 <= x.d < 2 ** w:
        return bv(int(x.d), w)
    return mk('fptoui', (x,), w)


def fptosi(x, w):
    if x.c and abs(x.d) < 2 ** (w - 1):
        return bv(int(x.d), w)
    return mk('fptosi', (x,), w)


def f2b(x):
    if x.c:
        return bv(int.from_bytes(struct.pack('>d', x.d), 'big'), 64)
    if x.op == 'b2f':
        return x.a[0]
    if x.op == 'ite':
        return ite(x.a[0], f2b(x.a[1]), f2b(x.a[2]))
    return mk('f2b', (x,), 64)


def b2f(x):
    if x.c:
        return fc(struct.unpack('>d', x.d.to_bytes(8, 'big'))[0])
    if x.op == 'f2b':
        return x.a[0]
    if x.op == 'ite':
        return ite(x.a[0], b2f(x.a[1]), b2f(x.a[2]))
    return mk('b2f', (x,), 'f')


def uf(name, args, s):
    return mk('uf', args, s, name)


# bound variables & folds:  sum(init, N, body ; k)   fold(init, N, step ; k, acc)
def sum_(init, n, body, k):
    if n.c and n.d == 0:
        return init
    return mk('sum', (init, n, body), 'f', k)


def fold_(init, n, body, k, acc):
    if n.c and n.d == 0:
        return init
    if isinstance(init.s, int) and body.op == 'lin':
        # an integer sum: init + (0 + terms), with canonical bound variables
        p = dict(zip(body.a, body.d[1]))
        if p.pop(acc, 0) == 1 and not any(depends(y, {acc}) for y in p):
            w = init.s
            g = _mklin(body.d[0], p, w)
            if not depends(g, {k}) and g.c:
                return add(init, mul(g, trunc(n, w) if n.s > w else zext(n, w)))
            lv = 1 + sum(1 for y in walk(g) if y.op in ('sum', 'fold'))
            ck, ca = sym('#ik%d' % lv, k.s, 2 ** 31 - 2 if k.s == 64 else None), sym('#ia%d.%d' % (lv, w), w)
            g = subst(g, {k: ck})
            f = mk('fold', (bv(0, w), n, add(ca, g)), w, (ck, ca))
            return add(init, f)
    if isinstance(init.s, int) and body.op == 'ite' and body.a[0].op == 'ult' and set(body.a[0].a) == set(body.a[1:]) and acc in body.a[1:]:
        # smallest or largest value, with canonical bound variables
        x = body.a[1] if body.a[2] is acc else body.a[2]
        if not depends(x, {acc}):
            w = init.s
            lv = 1 + sum(1 for y in walk(x) if y.op in ('sum', 'fold'))
            ck, ca = sym('#ik%d' % lv, k.s, 2 ** 31 - 2 if k.s == 64 else None), sym('#ia%d.%d' % (lv, w), w)
            x = subst(x, {k: ck})
            least = body.a[0].a[0] is body.a[1]
            return mk('fold', (init, n, ite(ult(x, ca) if least else ult(ca, x), x, ca)), w, (ck, ca))
    return mk('fold', (init, n, body), init.s, (k, acc))


# ---------------------------------------------------------------- rebuild / substitute
CONS = {
    'not': lambda d, s, a: not_(*a), 'and': lambda d, s, a: and_(*a), 'or': lambda d, s, a: or_(*a),
    'ite': lambda d, s, a: ite(*a), 'mul': lambda d, s, a: mul(*a), 'bvand': lambda d, s, a: bvand(*a),
    'bvor': lambda d, s, a: bvor(*a), 'bvxor': lambda d, s, a: bvxor(*a), 'shl': lambda d, s, a: shl(*a),
    'lshr': lambda d, s, a: lshr(*a), 'ashr': lambda d, s, a: ashr(*a), 'udiv': lambda d, s, a: udiv(*a),
    'urem': lambda d, s, a: urem(*a), 'sdiv': lambda d, s, a: sdiv(*a), 'srem': lambda d, s, a: srem(*a),
    'zext': lambda d, s, a: zext(a[0], s), 'sext': lambda d, s, a: sext(a[0], s),
    'trunc': lambda d, s, a: trunc(a[0], s), 'eq': lambda d, s, a: eq(*a), 'ult': lambda d, s, a: ult(*a),
    'slt': lambda d, s, a: slt(*a), 'fadd': lambda d, s, a: fadd(*a), 'fsub': lambda d, s, a: fsub(*a),
    'fmul': lambda d, s, a: fmul(*a), 'fdiv': lambda d, s, a: fdiv(*a), 'fneg': lambda d, s, a: fneg(*a),
    'fn': lambda d, s, a: fn(d, *a), 'feq': lambda d, s, a: feq(*a), 'flt': lambda d, s, a: flt(*a),
    'fle': lambda d, s, a: fle(*a), 'isnan': lambda d, s, a: isnan(*a), 'sitofp': lambda d, s, a: sitofp(*a),
    'uitofp': lambda d, s, a: uitofp(*a), 'fptoui': lambda d, s, a: fptoui(a[0], s),
    'fptosi': lambda d, s, a: fptosi(a[0], s), 'f2b': lambda d, s, a: f2b(*a), 'b2f': lambda d, s, a: b2f(*a),
    'sum': lambda d, s, a: sum_(a[0], a[1], a[2], d), 'fold': lambda d, s, a: fold_(a[0], a[1], a[2], *d),
}


def rebuild(t, a):
    if t.op == 'lin':
        r = bv(t.d[0], t.s)
        for x, k in zip(a, t.d[1]):
            r = add(r, mul(bv(k, t.s), x))
        return r
    f = CONS.get(t.op)
    if f:
        return f(t.d, t.s, a)
    return mk(t.op, a, t.s, t.d)


def subst(t, m, memo=None):
    """m: {term: term}"""
    if memo is None:
        memo = {}
    memo.update(m)
    stack = [t]
    while stack:
        x = stack[-1]
        if x in memo:
            stack.pop()
            continue
        todo = [y for y in x.a if y not in memo]
        if todo:
            stack.extend(todo)
            continue
        if not x.a:
            memo[x] = x
        else:
            na = tuple(memo[y] for y in x.a)
            memo[x] = x if na == x.a else rebuild(x, na)
        stack.pop()
    return memo[t]


def walk(*ts):
    seen = set()
    st = list(ts)
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(x.a)


def syms(*ts):
    bound = set()
    r = []
    for x in walk(*ts):
        if x.op == 'sym':
            r.append(x)
        if x.op == 'sum':
            bound.add(x.d)
        if x.op == 'fold':
            bound.update(x.d)
    return [x for x in r if x not in bound]


def depends(t, s):
    """does t mention any term of the set s"""
    for x in walk(t):
        if x in s:
            return True
    return False


def free_of(ts, bound):
    """term -> set of the symbols in bound occurring free in it, for all sub-terms"""
    memo = {}
    E = frozenset()
    st = list(ts)
    while st:                                # children first
        x = st[-1]
        if x in memo:
            st.pop()
            continue
        todo = [y for y in x.a if y not in memo]
        if todo:
            st.extend(todo)
            continue
        st.pop()
        if x in bound:
            r = frozenset((x,))
        elif not x.a:
            r = E
        else:
            r = E
            for i, y in enumerate(x.a):
                f = memo[y]
                if f and i == 2 and x.op == 'sum':
                    f = f - {x.d}
                elif f and i == 2 and x.op == 'fold':
                    f = f - set(x.d)
                if f:
                    r = r | f
        memo[x] = r
    return memo


# ---------------------------------------------------------------- concrete evaluation
class EvalError(Exception):
    pass


def evaluate(t, env, ufs=None, memo=None):
    """env: {sym term: python value}; ufs: {name: callable}"""
    memo = {} if memo is None else memo
    st = [t]
    while st:
        x = st[-1]
        if x in memo:
            st.pop()
            continue
        o = x.op
        if o == 'ite':
            c = x.a[0]
            if c not in memo:
                st.append(c)
                continue
            y = x.a[1] if memo[c] else x.a[2]
            if y not in memo:
                st.append(y)
                continue
            memo[x] = memo[y]
            st.pop()
            continue
        if o in ('sum', 'fold'):
            todo = [y for y in x.a[:2] if y not in memo]
            if todo:
                st.extend(todo)
                continue
            acc = memo[x.a[0]]
            for k in range(memo[x.a[1]]):
                if o == 'sum':
                    e2 = dict(env)
                    e2[x.d] = k
                    acc = acc + evaluate(x.a[2], e2, ufs)
                else:
                    e2 = dict(env)
                    e2[x.d[0]] = k
                    e2[x.d[1]] = acc
                    acc = evaluate(x.a[2], e2, ufs)
            memo[x] = acc
            st.pop()
            continue
        todo = [y for y in x.a if y not in memo]
        if todo:
            st.extend(todo)
            continue
        memo[x] = _ev(x, [memo[y] for y in x.a], env, ufs)
        st.pop()
    return memo[t]


PREC = None      # mpmath module: evaluate reals in high precision


def _mpfn(name, a):
    mp = PREC
    f = {'exp': mp.exp, 'sin': mp.sin, 'cos': mp.cos, 'tan': mp.tan, 'log': mp.log, 'log10': mp.log10, 'tanh': mp.tanh,
         'cosh': mp.cosh, 'sinh': mp.sinh, 'sqrt': mp.sqrt, 'fabs': abs, 'fmin': min, 'fmax': max, 'floor': mp.floor,
         'ceil': mp.ceil, 'atan': mp.atan, 'acos': mp.acos, 'asin': mp.asin, 'cbrt': mp.cbrt,
         'asinh': mp.asinh, 'log1p': mp.log1p, 'expm1': mp.expm1, 'pow': lambda p, q: mp.power(p, q)}.get(name)
    if f is None:
        return mp.mpf(MATH[name](*[float(z) for z in a]))
    r = f(*a)
    if isinstance(r, mp.mpc):
        raise EvalError('complex')
    return r


def _ev(x, a, env, ufs):
    o, s = x.op, x.s
    if PREC is not None and (s == 'f' or (x.a and x.a[0].s == 'f')):
        mp = PREC
        if o == 'c':
            return mp.mpf(x.d)
        if o == 'fdiv':
            if a[1] == 0:
                raise EvalError('div0')
            return a[0] / a[1]
        if o == 'fn':
            return _mpfn(x.d, a)
        if o == 'sym':
            v = env[x] if x in env else env['*'](x)
            return mp.mpf(v)
        if o == 'isnan':
            return False
        if o in ('uf', 'b2f', 'f2b', 'uitofp', 'sitofp') and s == 'f':
            v = _ev1(x, a, env, ufs)
            return mp.mpf(v)
    return _ev1(x, a, env, ufs)


def _ev1(x, a, env, ufs):
    o, s = x.op, x.s
    if o == 'c':
        return x.d
    if o == 'sym':
        if x in env:
            return env[x]
        if callable(env.get('*')):
            v = env['*'](x)
            env[x] = v
            return v
        raise EvalError('unbound ' + str(x.d))
    w = s if isinstance(s, int) else None
    if o == 'not':
        return not a[0]
    if o == 'and':
        return all(a)
    if o == 'or':
        return any(a)
    if o == 'lin':
        return (x.d[0] + sum(k * v for k, v in zip(x.d[1], a))) & M(w)
    if o == 'mul':
        return a[0] * a[1] & M(w)
    if o == 'bvand':
        return a[0] & a[1]
    if o == 'bvor':
        return a[0] | a[1]
    if o == 'bvxor':
        return a[0] ^ a[1]
    if o == 'shl':
        return a[0] << a[1] & M(w) if a[1] < w else 0
    if o == 'lshr':
        return a[0] >> a[1] if a[1] < w else 0
    if o == 'ashr':
        return sgn(a[0], w) >> min(a[1], w - 1) & M(w)
    if o in ('udiv', 'urem', 'sdiv', 'srem'):
        if a[1] == 0:
            raise EvalError('div0')
        r = {'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem}[o](bv(a[0], w), bv(a[1], w))
        return r.d
    if o == 'zext':
        return int(a[0])
    if o == 'sext':
        return sgn(a[0], x.a[0].s) & M(w)
    if o == 'trunc':
        return a[0] & M(w)
    if o == 'eq':
        return a[0] == a[1]
    if o == 'ult':
        return a[0] < a[1]
    if o == 'slt':
        return sgn(a[0], x.a[0].s) < sgn(a[1], x.a[0].s)
    try:
        if o == 'fadd':
            return a[0] + a[1]
        if o == 'fsub':
            return a[0] - a[1]
        if o == 'fmul':
            return a[0] * a[1]
        if o == 'fdiv':
            return _div(a[0], a[1])
        if o == 'fneg':
            return -a[0]
        if o == 'fn':
            try:
                return MATH[x.d](*a)
            except ValueError:
                return math.nan
            except OverflowError:
                return math.inf
    except OverflowError:
        return math.inf
    if o == 'feq':
        return a[0] == a[1]
    if o == 'flt':
        return a[0] < a[1]
    if o == 'fle':
        return a[0] <= a[1]
    if o == 'isnan':
        return a[0] != a[0]
    if o == 'sitofp':
        return float(sgn(a[0], x.a[0].s))
    if o == 'uitofp':
        return float(a[0])
    if o in ('fptoui', 'fptosi'):
        if not math.isfinite(a[0]):
            raise EvalError('fp->int of non-finite')
        v = int(a[0])
        if o == 'fptoui' and not 0 <= v <= M(w) or o == 'fptosi' and not -(1 << w - 1) <= v < 1 << w - 1:
            raise EvalError('fp->int out of range')
        return v & M(w)
    if o == 'f2b':
        return int.from_bytes(struct.pack('>d', a[0]), 'big')
    if o == 'b2f':
        return struct.unpack('>d', a[0].to_bytes(8, 'big'))[0]
    if o == 'uf':
        if hasattr(ufs, 'ufcall'):
            return ufs.ufcall(x.d, a, s)
        f = (ufs or {}).get(x.d)
        if f is None and ufs and '*' in ufs:
            return ufs['*'](x.d, a, s)
        if f is None:
            raise EvalError('uf ' + str(x.d))
        return f(*a)
    raise EvalError('op ' + o)
