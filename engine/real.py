"""Proof back end over the reals: rational-function normal form with atoms.

Terms of sort 'f' are read as exact real arithmetic.  equal(a, b) decides
a = b by case splitting on the conditions of the ite's, pulling finite sums
out linearly and comparing their summands pointwise, and comparing normal
forms.  Literals are exact binary fractions; coefficients may differ by a
relative `tol` (rounding of literal constants).  z3 decides feasibility of
cases, equalities that need the case facts, and inequalities.
"""
from fractions import Fraction as Fr
import math, time
import z3
import term as t
from term import TRUE, FALSE

z3.set_param('model_evaluator.completion', True)


class Unknown(Exception):
    pass


# ------------------------------------------------------------ polynomials
# monomial: tuple of (atom index, exponent) sorted; poly: dict mono -> Fraction
ONE = ()


def pconst(c):
    return {ONE: Fr(c)} if c else {}


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + c * k
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for x, e in b:
        n = d.get(x, 0) + e
        if n:
            d[x] = n
        else:
            d.pop(x, None)
    return tuple(sorted(d.items()))


def pmul(p, q):
    if len(p) > len(q):
        p, q = q, p
    r = {}
    if len(p) * len(q) > 400000:
        raise Unknown('polynomial too large')
    for a, c in p.items():
        for b, d in q.items():
            m = mmul(a, b)
            v = r.get(m, 0) + c * d
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def pkey(p):
    return tuple(sorted(p.items()))


def lead(p):
    return max(p)          # arbitrary but fixed order


class Rat:
    __slots__ = ('n', 'd')      # n: poly, d: {pkey: exp}

    def __init__(self, n, d=None):
        self.n, self.d = n, d or {}

    def key(self):
        return (pkey(self.n), tuple(sorted(self.d.items())))


class Ctx:
    def __init__(self, uf_rewrite=None, tol=Fr(1, 10 ** 12), facts=(), timeout=20000, tiny=0.0):
        """uf_rewrite(name, [Rat args], ctx) -> (coefficient Rat, name, args) or Rat or None"""
        self.why = None
        self.atoms = []            # index -> description (kind, payload)
        self.index = {}
        self.sq = {}               # root atom index -> Rat of argument
        self.rootdeg = {}          # degree of the root where it is not two
        self.uf_rewrite = uf_rewrite
        self.tiny = tiny           # literals below this magnitude are read as zero
        self.tol = tol
        self.memo = {}
        self.facts = list(facts)
        self.timeout = timeout
        self.side = {}             # side conditions used:  description -> term
        self.z = {}
        self.zaxioms = {}
        self.stat = {'leaves': 0, 'z3': 0, 'z3_s': 0.0, 'splits': 0}
        self.ckeys = {}
        self.squares = set()
        self.cmemo = {}

    # -------------------------------------------------------- atoms
    def atom(self, key, desc):
        i = self.index.get(key)
        if i is None:
            i = len(self.atoms)
            self.index[key] = i
            self.atoms.append((key, desc))
        return i

    def rconst(self, c):
        return Rat(pconst(Fr(c)))

    def ratom(self, key, desc):
        return Rat({((self.atom(key, desc), 1),): Fr(1)})

    # -------------------------------------------------------- rational ops
    def reduce(self, r):
        """replace sqrt(x)^2 by x in the numerator"""
        if not self.sq:
            return r
        while True:
            hit = None
            for m in r.n:
                for a, e in m:
                    if a in self.sq and e >= self.rootdeg.get(a, 2):
                        hit = a
                        break
                if hit is not None:
                    break
            if hit is None:
                return r
            parts = {}
            for m, c in r.n.items():
                e = dict(m).get(hit, 0)
                k = self.rootdeg.get(hit, 2)
                q = e // k
                if q:
                    mm = dict(m)
                    if e % k:
                        mm[hit] = e % k
                    else:
                        del mm[hit]
                    m = tuple(sorted(mm.items()))
                p = parts.setdefault(q, {})
                p[m] = p.get(m, 0) + c
            acc = Rat({}, {})
            arg = self.sq[hit]
            for q, p in parts.items():
                x = Rat({m: c for m, c in p.items() if c})
                for _ in range(q):
                    x = self._mul(x, arg)
                acc = self._add(acc, x)
            r = Rat(acc.n, self._mergeden(acc.d, r.d))

    def _mergeden(self, a, b):
        d = dict(a)
        for k, e in b.items():
            d[k] = d.get(k, 0) + e
        return d

    def _mul(self, a, b):
        if not a.n or not b.n:
            return Rat({})
        r = Rat(pmul(a.n, b.n), self._mergeden(a.d, b.d))
        return self.cancel(r)

    def _add(self, a, b, k=1):
        if not a.n:
            return Rat({m: c * k for m, c in b.n.items()}, b.d)
        if not b.n:
            return a
        if a.d == b.d:
            n = padd(a.n, b.n, k)
            return self.cancel(Rat(n, a.d)) if n else Rat({})
        ks = set(a.d) | set(b.d)
        l = {x: max(a.d.get(x, 0), b.d.get(x, 0)) for x in ks}

        def lift(r):
            n = r.n
            for x, e in l.items():
                for _ in range(e - r.d.get(x, 0)):
                    n = pmul(n, dict(x))
            return n
        n = padd(lift(a), lift(b), k)
        return self.cancel(Rat(n, l)) if n else Rat({})

    def cancel(self, r):
        """cancel denominator factors dividing the numerator (single-atom
        factors, and whole factors that divide exactly)"""
        if not r.d:
            return r
        n, d = r.n, dict(r.d)
        for key in list(d):
            if len(key) == 1:
                m = key[0][0]              # monomial factor
                if len(m) == 1 and m[0][1] == 1:
                    a = m[0][0]
                    e = min([dict(mm).get(a, 0) for mm in n] + [d[key]])
                    if e > 0:
                        nn = {}
                        for mm, c in n.items():
                            q = dict(mm)
                            q[a] -= e
                            if not q[a]:
                                del q[a]
                            nn[tuple(sorted(q.items()))] = c
                        n = nn
                        d[key] -= e
                        if not d[key]:
                            del d[key]
            elif len(n) <= 400:
                while d.get(key):
                    q = pdivexact(n, dict(key))
                    if q is None:
                        break
                    n = q
                    d[key] -= 1
                    if not d[key]:
                        del d[key]
        return Rat(n, d)

    def mul(self, a, b):
        return self.reduce(self._mul(a, b))

    def add(self, a, b, k=1):
        return self._add(a, b, k)

    def inv(self, b):
        """1/b"""
        if not b.n:
            raise Unknown('division by zero in normal form')
        num = {ONE: Fr(1)}
        for k, e in b.d.items():
            for _ in range(e):
                num = pmul(num, dict(k))
        n = b.n
        if len(n) == 1:
            (m, c), = n.items()
            d = {}
            num = {x: v / c for x, v in num.items()}
            for a, e in m:
                d[((((a, 1),), Fr(1)),)] = e
            return self.reduce(self.cancel(Rat(num, d)))
        c = n[lead(n)]
        mono = {x: v / c for x, v in n.items()}
        # extract common monomial
        com = None
        for m in mono:
            dm = dict(m)
            com = dm if com is None else {a: min(e, dm[a]) for a, e in com.items() if a in dm}
        d = {}
        if com:
            for a, e in com.items():
                d[((((a, 1),), Fr(1)),)] = e
            mono = {tuple(sorted((a, e - com.get(a, 0)) for a, e in m if e - com.get(a, 0))): v
                    for m, v in mono.items()}
        c2 = mono[lead(mono)]
        mono = {m: v / c2 for m, v in mono.items()}
        d[pkey(mono)] = d.get(pkey(mono), 0) + 1
        num = {x: v / (c * c2) for x, v in num.items()}
        return self.reduce(self.cancel(Rat(num, d)))

    def div(self, a, b):
        return self.mul(a, self.inv(b))

    # -------------------------------------------------------- normal form
    def norm(self, x):
        """Rat of a term of sort 'f' (ite-free, or ite's as atoms)"""
        r = self.memo.get(x)
        if r is not None:
            return r
        stack = [x]
        while stack:
            y = stack[-1]
            if y in self.memo:
                stack.pop()
                continue
            if y.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg'):
                todo = [z for z in y.a if z not in self.memo]
                if todo:
                    stack.extend(todo)
                    continue
            self.memo[y] = self._norm(y)
            stack.pop()
        return self.memo[x]

    def _norm(self, x):
        o = x.op
        if o == 'c':
            if not math.isfinite(x.d):
                return self.ratom(('c', repr(x.d)), x)
            if abs(x.d) < self.tiny:
                return self.rconst(0)
            return self.rconst(Fr(x.d))
        M = self.memo
        if o == 'fadd':
            return self.add(M[x.a[0]], M[x.a[1]])
        if o == 'fsub':
            return self.add(M[x.a[0]], M[x.a[1]], -1)
        if o == 'fmul':
            return self.mul(M[x.a[0]], M[x.a[1]])
        if o == 'fneg':
            r = M[x.a[0]]
            return Rat({m: -c for m, c in r.n.items()}, r.d)
        if o == 'fdiv':
            return self.div(M[x.a[0]], M[x.a[1]])
        if o == 'sym':
            return self.ratom(('sym', x.id), x)
        if o == 'uf':
            args = [self.norm(a) if a.s == 'f' else a for a in x.a]
            if self.uf_rewrite:
                r = self.uf_rewrite(x.d, args, self)
                if isinstance(r, Rat):
                    return r
                if r is not None:
                    coef, name, args = r
                    return self.mul(coef, self.ratom(('uf', name) + tuple(self.akey(a) for a in args), x))
            return self.ratom(('uf', x.d) + tuple(self.akey(a) for a in args), x)
        if o == 'fn':
            return self._fn(x)
        if o in ('uitofp', 'sitofp'):
            y = x.a[0]
            y = t.strip_ext(y)
            if y.c:
                return self.rconst(y.d if o == 'uitofp' else t.sgn(y.d, y.s))
            if y.op == 'lin' and t.umax(y) < 1 << (y.s - 1):
                c, p = t._lin_parts(y)
                if all(k >> (y.s - 1) == 0 for k in p.values()) and c >> (y.s - 1) == 0:
                    r = self.rconst(c)
                    for a, k in p.items():
                        r = self.add(r, self.mul(self.rconst(k), self.norm(t.uitofp(a))))
                    return r
            return self.ratom((o, self.ikey(y)), x)
        if o == 'sum':
            b = self.binder(0)
            body = t.subst(x.a[2], {x.d: b})
            return self.add(self.norm(x.a[0]),
                            self.ratom(('sum', self.ikey(x.a[1]), self.norm(body).key()), x))
        if o == 'fold':
            return self.ratom(self.foldkey(x), x)
        if o == 'ite':
            return self.ratom(('ite', self.ckey(x.a[0]), self.norm(x.a[1]).key(), self.norm(x.a[2]).key()), x)
        return self.ratom(('t', x.id), x)

    def foldkey(self, x):
        k, acc = x.d
        b = self.binder(0)
        ac = t.sym('#acc', x.s)
        body = t.subst(x.a[2], {k: b, acc: ac})
        return ('fold', self.ikey(x.a[1]), self.akey(x.a[0]), self.akey(body))

    _depth = 0

    def binder(self, d):
        return t.sym('#k', 64, 2 ** 31)

    def akey(self, a):
        if isinstance(a, Rat):
            return a.key()
        if isinstance(a, t.T):
            if a.s == 'f':
                return self.norm(a).key()
            if a.s == 'b':
                return self.ckey(a)
            return self.ikey(a)
        return a

    def ikey(self, y):
        return ('i', y.id)

    def sqrt_of(self, arg, x):
        """sqrt as an atom; constants are simplified"""
        if not arg.d and len(arg.n) <= 1:
            c = arg.n.get(ONE, Fr(0)) if arg.n else Fr(0)
            if (not arg.n) or (ONE in arg.n):
                if c >= 0:
                    rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
                    if rn * rn == c.numerator and rd * rd == c.denominator:
                        return self.rconst(Fr(rn, rd))
        r = self.ratom(('sqrt', arg.key()), x)
        i = next(iter(r.n))[0][0]
        self.sq[i] = arg
        return r

    def _fn(self, x):
        n = x.d
        if n == 'sqrt':
            pulled = self.sqrt_product(x.a[0])
            if pulled is not None:
                return pulled
            arg = self.norm(x.a[0])
            self.side['sqrt argument >= 0: ' + t.show(x.a[0], 3)] = x.a[0]
            return self.sqrt_of(arg, x)
        if n == 'cbrt':
            arg = self.norm(x.a[0])
            r = self.ratom(('cbrt', arg.key()), x)
            i = next(iter(r.n))[0][0]
            self.sq[i], self.rootdeg[i] = arg, 3
            return r
        if n == 'pow' and x.a[1].c:
            e = x.a[1].d
            base = self.norm(x.a[0])
            if abs(e * 2 - round(e * 2)) < 1e-14 and abs(e) <= 64:
                h = int(round(e * 2))
                neg, h = h < 0, abs(h)
                r = self.rconst(1)
                for _ in range(h // 2):
                    r = self.mul(r, base)
                if h % 2:
                    self.side['pow base >= 0: ' + t.show(x.a[0], 3)] = x.a[0]
                    r = self.mul(r, self.sqrt_of(base, t.fn('sqrt', x.a[0])))
                return self.inv(r) if neg else r
        if n == 'pow':
            r = self.powsplit(x)
            if r is not None:
                return r
        return self.ratom(('fn', n) + tuple(self.norm(a).key() for a in x.a), x)

    def sqrt_product(self, x):
        """sqrt(q*q*r) = q sqrt(r) where q is a sum of squares"""
        if x.op != 'fmul':
            return None
        fs, todo = [], [x]
        while todo:
            y = todo.pop()
            if y.op == 'fmul':
                todo += y.a
            else:
                fs.append(y)
        g = {}
        for y in fs:
            g.setdefault(self.norm(y).key(), []).append(y)
        if not any(len(v) >= 2 and self.nonneg(v[0]) for v in g.values()):
            return None
        out, rest = self.rconst(1), t.fc(1.0)
        for v in g.values():
            k = len(v) // 2 if self.nonneg(v[0]) else 0
            for _ in range(k):
                out = self.mul(out, self.norm(v[0]))
            for y in v[2 * k:]:
                rest = t.fmul(rest, y)
        return out if rest.c and rest.d == 1.0 else self.mul(out, self.norm(t.fn('sqrt', rest)))

    def nonneg(self, x):
        if x.c:
            return x.d >= 0
        if x.op == 'fadd':
            return all(self.nonneg(y) for y in x.a)
        if x.op == 'fmul':
            return self.norm(x.a[0]).key() == self.norm(x.a[1]).key() or all(self.nonneg(y) for y in x.a)
        return x.op == 'fn' and x.d in ('sqrt', 'fabs', 'exp')

    def powsplit(self, x):
        """x^(n + f + sum c_m m) = x^n x^f prod (x^m)^c_m for a positive base"""
        base, e = self.norm(x.a[0]), self.norm(x.a[1])
        if e.d or len(e.n) > 8:
            return None
        self.side['pow base > 0: ' + t.show(x.a[0], 3)] = x.a[0]
        r = self.rconst(1)
        for m, c in sorted(e.n.items()):
            if m == ONE:
                n = c.numerator // c.denominator
                if abs(n) > 64:
                    return None
                for _ in range(abs(n)):
                    r = self.mul(r, base if n > 0 else self.inv(base))
                f = c - n
                if f:
                    r = self.mul(r, self.ratom(('fn', 'pow', base.key(), self.rconst(f).key()), t.fn('pow', x.a[0], t.fc(float(f)))))
                continue
            p, q = c.numerator, c.denominator
            if abs(p) > 64:
                return None
            a = self.ratom(('fn', 'pow', base.key(), Rat({m: Fr(1, q)}).key()), None)
            a = a if p > 0 else self.inv(a)
            for _ in range(abs(p)):
                r = self.mul(r, a)
        return r

    # -------------------------------------------------------- conditions
    def ckey(self, c):
        """canonical key of an atomic condition"""
        k = self.ckeys.get(c)
        if k is not None:
            return k
        o = c.op
        if o in ('flt', 'fle', 'feq'):
            d = self.add(self.norm(c.a[1]), self.norm(c.a[0]), -1)     # b - a
            if not d.d and d.n:
                l = abs(d.n[lead(d.n)])
                if o == 'feq':
                    l = d.n[lead(d.n)]
                d = Rat({m: v / l for m, v in d.n.items()})
            k = (o, d.key())
        elif o == 'not':
            k = ('not', self.ckey(c.a[0]))
        elif o in ('and', 'or'):
            k = (o,) + tuple(sorted((self.ckey(y) for y in c.a), key=repr))
        else:
            k = ('t', c.id)
        self.ckeys[c] = k
        return k

    def neg_key(self, k):
        """flt(b-a>0) negation as fle"""
        return k

    # -------------------------------------------------------- z3 translation
    def zvar(self, i):
        v = self.z.get(i)
        if v is None:
            key, desc = self.atoms[i]
            v = z3.Real('a%d' % i)
            self.z[i] = v
            if i in self.sq:
                self.zaxioms[i] = None       # placeholder against recursion
                arg = self.zrat(self.sq[i])
                self.zaxioms[i] = [v >= 0, v * v == arg] if self.rootdeg.get(i, 2) == 2 else [v * v * v == arg, (v >= 0) == (arg >= 0)]
            elif key[0] == 'fn' and key[1] == 'exp':
                self.zaxioms[i] = [v > 0]
                arg = self.zrat(self.norm(desc.a[0]))
                self.zaxioms[i] = [v > 0, z3.Or(arg > 0, v <= 1), z3.Or(arg < 0, v >= 1)]
            elif key[:2] == ('fn', 'pow') and (desc is None or not (desc.op == 'fn' and desc.a[1].c and float(desc.a[1].d).is_integer())):
                self.zaxioms[i] = [v > 0]
            elif key[0] in ('uitofp',):
                self.zaxioms[i] = [v >= 0]
        return v

    def zrat(self, r):
        def zp(p):
            tot = z3.RealVal(0)
            terms = []
            for m, c in p.items():
                f = z3.RealVal(str(c))
                for a, e in m:
                    for _ in range(e):
                        f = f * self.zvar(a)
                terms.append(f)
            return z3.Sum(terms) if terms else tot
        n = zp(r.n)
        for k, e in r.d.items():
            d = zp(dict(k))
            for _ in range(e):
                n = n / d
        return n

    def zreal(self, x):
        """term -> z3 Real, ite's kept as If"""
        m = self.cmemo
        if x in m:
            return m[x]
        o = x.op
        if o == 'ite':
            r = z3.If(self.zbool(x.a[0]), self.zreal(x.a[1]), self.zreal(x.a[2]))
        elif o == 'fadd':
            r = self.zreal(x.a[0]) + self.zreal(x.a[1])
        elif o == 'fsub':
            r = self.zreal(x.a[0]) - self.zreal(x.a[1])
        elif o == 'fmul':
            r = self.zreal(x.a[0]) * self.zreal(x.a[1])
        elif o == 'fneg':
            r = -self.zreal(x.a[0])
        elif o == 'fdiv':
            r = self.zreal(x.a[0]) / self.zreal(x.a[1])
        elif o == 'fn' and x.d == 'fabs':
            a = self.zreal(x.a[0])
            r = z3.If(a < 0, -a, a)
        elif o == 'fn' and x.d in ('fmin', 'fmax'):
            a, b = self.zreal(x.a[0]), self.zreal(x.a[1])
            r = z3.If((a < b) if x.d == 'fmin' else (a > b), a, b)
        elif o == 'fn' and x.d == 'sqrt' and has_ite(x.a[0]):
            a = self.zreal(x.a[0])
            r = z3.Real('sq%d' % x.id)
            self.zaxioms[('sq', x.id)] = [r >= 0, r * r == a]
        else:
            r = self.zrat(self.norm(x))
        m[x] = r
        return r

    def zbool(self, c):
        m = self.cmemo
        if c in m:
            return m[c]
        o = c.op
        if o == 'c':
            r = z3.BoolVal(bool(c.d))
        elif o == 'not':
            r = z3.Not(self.zbool(c.a[0]))
        elif o == 'and':
            r = z3.And([self.zbool(y) for y in c.a])
        elif o == 'or':
            r = z3.Or([self.zbool(y) for y in c.a])
        elif o == 'flt':
            r = self.zreal(c.a[0]) < self.zreal(c.a[1])
        elif o == 'fle':
            r = self.zreal(c.a[0]) <= self.zreal(c.a[1])
        elif o == 'feq':
            r = self.zreal(c.a[0]) == self.zreal(c.a[1])
        elif o == 'isnan':
            r = z3.BoolVal(False)
        elif o == 'ite':
            r = z3.If(self.zbool(c.a[0]), self.zbool(c.a[1]), self.zbool(c.a[2]))
        elif o in ('eq', 'ult', 'slt'):
            import smt
            if not hasattr(self, 'bv'):
                self.bv = smt.BV()
            r = self.bv.tr(c)
        else:
            r = z3.Bool('c%d' % c.id)
        m[c] = r
        return r

    def check(self, forms, timeout=None):
        """sat / unsat / unknown of a list of z3 formulas plus the axioms of the atoms"""
        t0 = time.time()
        ax = []
        done = set()
        while True:
            new = [k for k in self.zaxioms if k not in done]
            if not new:
                break
            for k in new:
                done.add(k)
                ax += self.zaxioms[k] or []
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout)
        if getattr(self, 'bv', None):
            ax = ax + list(self.bv.ranges)
        s.add(*forms)
        s.add(*ax)
        r = s.check()
        self.stat['z3'] += 1
        if r == z3.unknown:
            s = z3.Tactic('qfnra-nlsat').solver()
            s.set('timeout', timeout or self.timeout)
            s.add(*forms)
            s.add(*ax)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
        self.stat['z3_s'] += time.time() - t0
        self.last = s
        return r

    # -------------------------------------------------------- equality
    def ratequal(self, a, b):
        """a == b as rational functions up to coefficient tolerance"""
        x, y = a, b
        if x.d != y.d:
            ks = set(a.d) | set(b.d)
            def lift(r, o):
                n = Rat(r.n)
                for k in ks:
                    e = max(a.d.get(k, 0), b.d.get(k, 0)) - r.d.get(k, 0)
                    for _ in range(e):
                        n = Rat(pmul(n.n, dict(k)), n.d)
                return self.reduce(n)
            x, y = lift(a, b), lift(b, a)
            if x.d or y.d:
                d = self.add(x, y, -1)
                d = self.reduce(d)
                if not d.n:
                    return True
                # tolerance on what remains
                return self._small(d.n, x.n, y.n)
        x, y = self.reduce(x), self.reduce(y)
        if x.n == y.n and x.d == y.d:
            return True
        if x.d != y.d:
            d = self.reduce(self.add(x, y, -1))
            return not d.n or self._small(d.n, x.n, y.n)
        return self._small(padd(x.n, y.n, -1), x.n, y.n)

    def _small(self, d, x, y):
        if not d:
            return True
        mx = max([abs(c) for c in x.values()] + [abs(c) for c in y.values()] + [Fr(0)])
        for m, c in d.items():
            sc = max(abs(x.get(m, 0)), abs(y.get(m, 0)))
            if sc == 0:
                sc = mx
                if abs(c) > self.tol * sc / 10 ** 3:
                    return False
            elif abs(c) > self.tol * sc:
                return False
        return True

    def equal(self, a, b, facts=(), depth=0):
        """True: proved.  False: a case was found where the normal forms
        differ (and the case is not refuted).  Raises Unknown on limits."""
        self.why = None
        a, b = self.prep(a), self.prep(b)
        facts = [self.prep(f) for f in facts]
        a, b, facts = self.unify_folds(a, b, facts)
        return self._equal(a, b, list(self.facts) + [self.prep(f) for f in facts], {})

    def unify_folds(self, a, b, facts):
        """induction lemma: folds with equal start and equal step are equal"""
        fa = [y for y in t.walk(a) if y.op == 'fold' and y.s == 'f']
        fb = [y for y in t.walk(b) if y.op == 'fold' and y.s == 'f']
        if not fa or not fb:
            return a, b, facts
        all_ = list(self.facts) + facts
        m = {}
        for y in sorted(fb, key=lambda y: y.id):
            for x in fa:
                if x is y:
                    break
                if x.a[1] is not y.a[1]:
                    continue
                K, AC = self.freshk(x.a[1]), t.sym('#ACC', 'f')
                (k1, c1), (k2, c2) = x.d, y.d
                if self._equal(x.a[0], y.a[0], all_, {}) and \
                        self._equal(t.subst(x.a[2], {k1: K, c1: AC}), t.subst(y.a[2], {k2: K, c2: AC}),
                                    all_ + [t.ult(K, x.a[1])], {}):
                    m[y] = x
                    break
        if m:
            b, facts = t.subst(b, m), [t.subst(f, m) for f in facts]
        return a, b, facts

    def prep(self, x):
        memo = self.__dict__.setdefault('pmemo', {})
        return prep(x, memo)

    def _equal(self, a, b, facts, asg):
        if a is b:
            return True
        cs = self.conds(a, b)
        if cs:
            c = cs[0]
            if self.stat['splits'] > 4000:
                raise Unknown('too many cases')
            self.stat['splits'] += 1
            for val in (True, False):
                fc_ = c if val else t.not_(c)
                f2 = facts + [fc_]
                if len(f2) > 1 or depends_z(c):
                    if len(f2) > 0 and self.infeasible(f2):
                        continue
                m = self.cond_subst(c, val, a, b)
                if not self._equal(t.subst(a, m), t.subst(b, m), f2, asg):
                    return False
            return True
        self.stat['leaves'] += 1
        # sums
        ra, sa = self.linsum(a)
        rb, sb = self.linsum(b)
        if sa or sb:
            groups = {}
            for (lst, sg) in ((sa, 1), (sb, -1)):
                for coef, n, body, k in lst:
                    bd = t.subst(body, {k: self.freshk(n)})
                    g = groups.setdefault(n, ([], []))
                    g[0 if sg > 0 else 1].append(t.fmul(coef, bd))
            ok = True
            for n, (l, r) in groups.items():
                L, R = t.fc(0.0), t.fc(0.0)
                for x in l:
                    L = t.fadd(L, x)
                for x in r:
                    R = t.fadd(R, x)
                kk = self.freshk(n)
                if self.int_unsat(facts + [t.ult(kk, n)]):
                    continue
                if not self._equal(L, R, facts + [t.ult(kk, n)], asg):
                    ok = False
                    break
            if ok and self._leaf(ra, rb, facts):
                return True
            return self._leaf(a, b, facts)
        return self._leaf(a, b, facts)

    def freshk(self, n):
        return t.sym('#K', 64, 2 ** 31 - 1)

    def _leaf(self, a, b, facts):
        x, y = self.norm(a), self.norm(b)
        if self.ratequal(x, y):
            return True
        # with the facts
        if facts:
            zf = [self.zbool(f) for f in facts]
            d = z3.simplify(self.zrat(x) - self.zrat(y))
            eps = z3.RealVal('1/1000000000000')
            r = self.check(zf + [self.zrat(x) != self.zrat(y)])
            if r == z3.unsat:
                return True
            if r == z3.unknown:
                if self.check(zf, 5000) == z3.unsat:
                    return True
            self.why = (a, b, facts)
            if r == z3.unknown:
                self.why_unknown = True
            return False
        self.why = (a, b, facts)
        return False

    def int_unsat(self, facts):
        """the integer facts alone are contradictory"""
        fs = [f for f in facts if not any(y.s == 'f' for y in t.walk(f))]
        return len(fs) > 1 and self.check([self.zbool(f) for f in fs], 3000) == z3.unsat

    def infeasible(self, facts):
        return self.check([self.zbool(f) for f in facts], 3000) == z3.unsat

    def conds(self, *ts):
        """atomic conditions of ite's that are closed (not under a binder)"""
        bound = set()
        out, seen = [], set()
        for x in t.walk(*ts):
            if x.op == 'sum':
                bound.add(x.d)
            elif x.op == 'fold':
                bound.update(x.d)
        inner_first = []
        free = t.free_of(ts, bound) if bound else None
        for x in t.walk(*ts):
            if x.op == 'ite' or (x.op in ('and', 'or', 'not')):
                for c in ([x.a[0]] if x.op == 'ite' else []):
                    for y in t.walk(c):
                        if y.s == 'b' and y.op not in ('and', 'or', 'not', 'c', 'ite'):
                            if y in seen:
                                continue
                            seen.add(y)
                            if any(z.op == 'ite' and z is not y for z in t.walk(*y.a)):
                                continue
                            if bound and free[y]:
                                continue
                            inner_first.append(y)
        return inner_first

    def cond_subst(self, c, val, *ts):
        """all atomic conditions equivalent to c"""
        m = {c: TRUE if val else FALSE}
        k = self.ckey(c)
        nk = None
        if c.op in ('flt', 'fle'):
            d = self.add(self.norm(c.a[0]), self.norm(c.a[1]), -1)
            if not d.d and d.n:
                l = abs(d.n[lead(d.n)])
                d = Rat({mm: v / l for mm, v in d.n.items()})
            nk = ('fle' if c.op == 'flt' else 'flt', d.key())
        for x in t.walk(*ts):
            if x.op in ('flt', 'fle', 'feq') and x is not c and not any(z.op == 'ite' for z in t.walk(*x.a)):
                kx = self.ckey(x)
                if kx == k:
                    m[x] = TRUE if val else FALSE
                elif kx == nk:
                    m[x] = FALSE if val else TRUE
                elif val and c.op == 'flt' and x.op in ('fle', 'feq') and kx[1] in (k[1],):
                    if x.op == 'fle':
                        m[x] = TRUE
        return m

    def linsum(self, x):
        """x = rest + sum_j coef_j * Sum(n_j, body_j)"""
        if not any(y.op == 'sum' for y in t.walk(x)):
            return x, []
        o = x.op
        if o == 'sum':
            r, s = self.linsum(x.a[0])
            return r, s + [(t.fc(1.0), x.a[1], x.a[2], x.d)]
        if o in ('fadd', 'fsub'):
            r1, s1 = self.linsum(x.a[0])
            r2, s2 = self.linsum(x.a[1])
            if o == 'fsub':
                s2 = [(t.fneg(c), n, b, k) for c, n, b, k in s2]
                return t.fsub(r1, r2), s1 + s2
            return t.fadd(r1, r2), s1 + s2
        if o == 'fneg':
            r, s = self.linsum(x.a[0])
            return t.fneg(r), [(t.fneg(c), n, b, k) for c, n, b, k in s]
        if o == 'fmul':
            for i in (0, 1):
                if not hassum(x.a[i]):
                    r, s = self.linsum(x.a[1 - i])
                    f = x.a[i]
                    return t.fmul(f, r), [(t.fmul(f, c), n, b, k) for c, n, b, k in s]
            return x, []
        if o == 'fdiv':
            if not hassum(x.a[1]):
                r, s = self.linsum(x.a[0])
                return t.fdiv(r, x.a[1]), [(t.fdiv(c, x.a[1]), n, b, k) for c, n, b, k in s]
            # numerator sums over a denominator with sums: 1/den is an atom-like factor
            if hassum(x.a[0]):
                r, s = self.linsum(x.a[0])
                return t.fdiv(r, x.a[1]), [(t.fdiv(c, x.a[1]), n, b, k) for c, n, b, k in s]
        return x, []

    # -------------------------------------------------------- guidance
    def guide(self):
        """values of the inputs in the failing case (from the solver), for the
        native search: {symbol or indexed-input name: float}"""
        if not self.why:
            return {}
        a, b, facts = self.why
        try:
            fs = [self.zbool(f) for f in facts]
            if b is None:
                fs.append(z3.Not(self.zbool(a)) if a is not FALSE else z3.BoolVal(True))
            elif a.s == 'f':
                fs.append(self.zreal(a) != self.zreal(b))
            if self.check(fs, 5000) != z3.sat:
                return {}
            m = self.last.model()
            r = {}
            for i, v in self.z.items():
                key, desc = self.atoms[i]
                if desc is None or not isinstance(desc, t.T):
                    continue
                x = m.eval(v, model_completion=True)
                try:
                    x = float(x.approx(20).as_fraction()) if hasattr(x, 'approx') else float(x.as_fraction())
                except Exception:
                    continue
                if desc.op == 'sym':
                    r[str(desc.d)] = x
                elif desc.op == 'uf' and len(desc.a) == 1 and desc.a[0].s == 64:
                    r['%s[0]' % desc.d] = x
            return r
        except (Unknown, z3.Z3Exception):
            return {}

    # -------------------------------------------------------- validity
    def valid(self, c, facts=(), timeout=None):
        """prove boolean term c under facts.  returns True / False / None"""
        c = self.prep(c)
        fs = [self.zbool(self.prep(f)) for f in list(self.facts) + list(facts)]
        r = self.check(fs + [z3.Not(self.zbool(c))], timeout)
        if r == z3.unsat:
            return True
        if r == z3.sat:
            return False
        return None

    def valid_split(self, c, facts=(), timeout=None, depth=0):
        """as valid, splitting on ite conditions first (helps nonlinear goals)"""
        c = self.prep(c)
        facts = [self.prep(f) for f in facts]
        return self._vs(c, list(self.facts) + facts, timeout)

    def _vs(self, c, facts, timeout):
        if c is TRUE:
            return True
        cs = self.conds(c)
        if not cs:
            zf = [self.zbool(f) for f in facts]
            if c is FALSE:
                r = self.check(zf, timeout)
            else:
                r = self.check(zf + [z3.Not(self.zbool(c))], timeout)
            if r == z3.unsat:
                return True
            self.why = (c, None, facts)
            return False if r == z3.sat else None
        k = cs[0]
        for val in (True, False):
            f2 = facts + [k if val else t.not_(k)]
            if self.infeasible(f2):
                continue
            m = self.cond_subst(k, val, c)
            r = self._vs(t.subst(c, m), f2, timeout)
            if r is not True:
                return r
        return True


def hassum(x):
    return any(y.op == 'sum' for y in t.walk(x))


def has_ite(x):
    return any(y.op == 'ite' for y in t.walk(x))


def depends_z(c):
    return True


def pdivexact(n, d):
    """exact multivariate division or None"""
    ld = lead(d)
    cd = d[ld]
    ldd = dict(ld)
    q = {}
    r = dict(n)
    steps = 0
    while r:
        steps += 1
        if steps > 500:
            return None
        lr = lead(r)
        lrd = dict(lr)
        mm = dict(lrd)
        for a, e in ldd.items():
            v = mm.get(a, 0) - e
            if v < 0:
                return None
            if v:
                mm[a] = v
            else:
                mm.pop(a, None)
        m = tuple(sorted(mm.items()))
        c = r[lr] / cd
        q[m] = q.get(m, 0) + c
        for x, v in d.items():
            y = mmul(x, m)
            nv = r.get(y, 0) - v * c
            if nv:
                r[y] = nv
            else:
                r.pop(y, None)
        if lr in r:
            return None
    return {m: c for m, c in q.items() if c}


def prep(x, memo):
    """fabs/fmin/fmax -> ite; isnan -> false; distribute nothing else"""
    stack = [x]
    while stack:
        y = stack[-1]
        if y in memo:
            stack.pop()
            continue
        todo = [z for z in y.a if z not in memo]
        if todo:
            stack.extend(todo)
            continue
        a = tuple(memo[z] for z in y.a)
        if y.op == 'fn' and y.d == 'fabs':
            r = t.ite(t.flt(a[0], t.fc(0.0)), t.fneg(a[0]), a[0])
        elif y.op == 'fn' and y.d in ('fmin', 'fmax'):
            r = t.ite(t.flt(a[0], a[1]), *(a if y.d == 'fmin' else (a[1], a[0])))
        elif y.op == 'fn' and y.d == 'sqrt' and a[0].op == 'fmul' and a[0].a[0] is a[0].a[1]:
            z = a[0].a[0]
            r = t.ite(t.flt(z, t.fc(0.0)), t.fneg(z), z)
        elif y.op == 'isnan':
            r = FALSE
        elif y.op in ('eq', 'ult', 'slt') and any(z.op == 'ite' for z in a) and any(z.op == 'c' for z in a):
            i = 0 if a[0].op == 'ite' else 1
            r = liftcmp(a[i], (lambda v: t.rebuild(y, (v, a[1]))) if i == 0 else (lambda v: t.rebuild(y, (a[0], v))))
            if r is None:
                r = y if a == y.a else t.rebuild(y, a)
        else:
            r = y if a == y.a else t.rebuild(y, a)
        memo[y] = r
        stack.pop()
    return memo[x]


def liftcmp(x, f):
    """f over the leaves of a choice between integer constants (None if it is none)"""
    if x.op == 'c':
        return f(x)
    if x.op != 'ite':
        return None
    p = liftcmp(x.a[1], f)
    q = liftcmp(x.a[2], f) if p is not None else None
    if q is None:
        return None
    if p is TRUE and q is FALSE:
        return x.a[0]
    return t.or_(t.and_(x.a[0], p), t.and_(t.not_(x.a[0]), q))


def nanlift(x):
    """IEEE not-a-number made explicit: (condition under which x is NaN, x with
    every comparison false when an operand is NaN).  0/0 is the only source
    considered; inputs are finite and not NaN."""
    memo = {}

    def go(y):
        if y in memo:
            return memo[y]
        o = y.op
        if o in ('fold', 'sum'):
            n0, i0 = go(y.a[0])
            nb, b0 = go(y.a[2])
            if n0 is not FALSE or (o == 'sum' and nb is not FALSE):
                raise Unknown('NaN in an accumulation')
            if nb is not FALSE and Ctx().valid_split(t.not_(nb), [], 10000) is not True:
                raise Unknown('an accumulated value may be NaN')
            r = (FALSE, t.rebuild(y, (i0, y.a[1], b0)))
        elif not y.a:
            r = (FALSE, y)
        else:
            ns, vs = zip(*[go(z) for z in y.a])
            if o == 'ite':
                r = (t.ite(vs[0], ns[1], ns[2]), t.ite(*vs))
            elif o in ('flt', 'fle', 'feq'):
                r = (FALSE, t.and_(*[t.not_(n) for n in ns], t.rebuild(y, vs)))
            elif o == 'isnan':
                r = (FALSE, ns[0])
            elif o == 'fdiv':
                z = t.fc(0.0)
                r = (t.or_(*ns, t.and_(t.feq(vs[0], z), t.feq(vs[1], z))), t.rebuild(y, vs))
            elif y.s == 'f':
                if o == 'fn' and y.d in ('fmin', 'fmax'):
                    raise Unknown('fmin of NaN')
                r = (t.or_(*ns), t.rebuild(y, vs))
            else:
                if any(n is not FALSE for n in ns):
                    raise Unknown('NaN in %s' % o)
                r = (FALSE, t.rebuild(y, vs))
        memo[y] = r
        return r
    return go(x)
