"""bit-level equivalence of bit-vector terms: and-inverter graph + SAT sweeping
(internal equal points found by simulation, each proved by z3 before it is used)"""
import random
import z3
import term as t
import smt


class Aig:
    def __init__(self):
        self.fan = [None]           # node 0 = constant false; literal = 2*node + negated
        self.hash = {}
        self.ins = {}               # (key, bit) -> literal

    def inp(self, k):
        if k not in self.ins:
            self.fan.append(None)
            self.ins[k] = 2 * (len(self.fan) - 1)
        return self.ins[k]

    def AND(self, a, b):
        if a > b:
            a, b = b, a
        if a == 0 or a == b ^ 1:
            return 0
        if a == 1 or a == b:
            return b
        k = (a, b)
        r = self.hash.get(k)
        if r is None:
            self.fan.append(k)
            r = self.hash[k] = 2 * (len(self.fan) - 1)
        return r

    def OR(self, a, b):
        return self.AND(a ^ 1, b ^ 1) ^ 1

    def XOR(self, a, b):
        if a < 2:
            return b ^ a
        if b < 2:
            return a ^ b
        if a >> 1 == b >> 1:
            return (a ^ b) & 1
        n = (a ^ b) & 1
        a, b = a & ~1, b & ~1
        if a > b:
            a, b = b, a
        return self.OR(self.AND(a, b ^ 1), self.AND(a ^ 1, b)) ^ n

    def MUX(self, c, a, b):
        if c == 1:
            return a
        if c == 0:
            return b
        if a == b:
            return a
        if a == b ^ 1:
            return self.XOR(c, b)
        return self.OR(self.AND(c, a), self.AND(c ^ 1, b))

    # ---- terms
    def addc(self, x, y, c=0):
        r = []
        for a, b in zip(x, y):
            ab = self.XOR(a, b)
            r.append(self.XOR(ab, c))
            c = self.OR(self.AND(a, b), self.AND(ab, c))
        return r

    def const(self, v, w):
        return [(v >> i) & 1 for i in range(w)]

    def blast(self, ts):
        if not hasattr(self, 'memo'):
            self.memo = {}
        m = self.memo
        st = list(ts)
        while st:
            x = st[-1]
            if x in m:
                st.pop()
                continue
            todo = [y for y in x.a if y not in m]
            if todo:
                st += todo
                continue
            st.pop()
            m[x] = self._b(x)
        return [m[x] for x in ts]

    def _b(self, x):
        m, o, w = self.memo, x.op, x.s
        a = [m.get(y) for y in x.a]
        if w == 'f' or any(y.s == 'f' for y in x.a) and w != 'b' and o not in ('ite',):
            return None if w == 'f' else [self.inp((x.id, i)) for i in range(w)]
        if any(y is None for y in a):
            return [self.inp((x.id, i)) for i in range(1 if w == 'b' else w)]
        if o == 'c':
            return [int(bool(x.d))] if w == 'b' else self.const(x.d, w)
        if o == 'sym':
            n = 1 if w == 'b' else w
            mx = getattr(x.d, 'umax', None)
            k = n if mx is None else min(n, mx.bit_length())
            return [self.inp((x.id, i)) if i < k else 0 for i in range(n)]
        if o == 'not':
            return [a[0][0] ^ 1]
        if o in ('and', 'or'):
            r = a[0][0]
            for y in a[1:]:
                r = self.AND(r, y[0]) if o == 'and' else self.OR(r, y[0])
            return [r]
        if o == 'ite':
            return [self.MUX(a[0][0], p, q) for p, q in zip(a[1], a[2])]
        if o == 'lin':
            r = self.const(x.d[0], w)
            for v, k in zip(a, x.d[1]):
                neg = False
                if k >= 1 << (w - 1) and bin(k).count('1') > 2:
                    k, neg = (1 << w) - k, True
                i = 0
                while k >> i:
                    if (k >> i) & 1:
                        s = ([0] * i + list(v))[:w]
                        r = self.addc(r, [b ^ 1 for b in s], 1) if neg else self.addc(r, s)
                    i += 1
            return r
        if o == 'mul':
            r = [0] * w
            for i in range(w):
                if a[1][i]:
                    r = self.addc(r, [self.AND(b, a[1][i]) for b in ([0] * i + list(a[0]))[:w]])
            return r
        if o in ('bvand', 'bvor', 'bvxor'):
            f = {'bvand': self.AND, 'bvor': self.OR, 'bvxor': self.XOR}[o]
            r = a[0]
            for y in a[1:]:
                r = [f(p, q) for p, q in zip(r, y)]
            return r
        if o in ('shl', 'lshr', 'ashr'):
            r, s = list(a[0]), a[1]
            fill = r[-1] if o == 'ashr' else 0
            over = 0
            for i, b in enumerate(s):
                if (1 << i) >= w:
                    over = self.OR(over, b)
                    continue
                k = 1 << i
                sh = ([0] * k + r)[:w] if o == 'shl' else r[k:] + [fill] * k
                r = [self.MUX(b, p, q) for p, q in zip(sh, r)]
            return [self.MUX(over, fill, p) for p in r]
        if o == 'zext':
            return list(a[0]) + [0] * (w - len(a[0]))
        if o == 'sext':
            return list(a[0]) + [a[0][-1]] * (w - len(a[0]))
        if o == 'trunc':
            return list(a[0])[:w]
        if o == 'b2i':
            return [a[0][0]] + [0] * (w - 1)
        if o == 'eq':
            r = 1
            for p, q in zip(a[0], a[1]):
                r = self.AND(r, self.XOR(p, q) ^ 1)
            return [r]
        if o in ('ult', 'slt'):
            p, q = list(a[0]), list(a[1])
            if o == 'slt':
                p[-1] ^= 1
                q[-1] ^= 1
            r = 0
            for b, c in zip(p, q):
                r = self.MUX(self.XOR(b, c), c, r)
            return [r]
        return [self.inp((x.id, i)) for i in range(1 if w == 'b' else w)]


def cone(g, lits):
    seen, st = set(), [l >> 1 for l in lits]
    while st:
        n = st.pop()
        if n in seen:
            continue
        seen.add(n)
        if g.fan[n]:
            st += [g.fan[n][0] >> 1, g.fan[n][1] >> 1]
    return sorted(seen)


def equal(xs, ys, bias=None, timeout=20000, stat=None):
    """True when every bit of the terms xs equals that of ys for all inputs,
    False when a difference was found, None when undecided"""
    g = Aig()
    bx, by = g.blast(list(xs)), g.blast(list(ys))
    pairs = [(p, q) for u, v in zip(bx, by) for p, q in zip(u, v)]
    # inputs are numbered when blasted; a second graph is built reduced
    W = 2048
    full = (1 << W) - 1
    rng = random.Random(7)
    sig = {0: 0}
    nodes = cone(g, [l for p in pairs for l in p])
    names = {l >> 1: k for k, l in g.ins.items()}
    h = Aig()
    hs = {0: 0}                        # signatures in h
    mp = {0: 0}                        # node of g -> literal of h
    cls = {0: [0]}                     # normalised signature -> nodes of h (reduced)
    sol = z3.Solver()
    sol.set('timeout', timeout)
    zv = {0: z3.BoolVal(False)}

    def zl(l):
        n = l >> 1
        st = [n]
        while st:
            k = st[-1]
            if k in zv:
                st.pop()
                continue
            f = h.fan[k]
            if f is None:
                zv[k] = z3.Bool('i%d' % k)
                st.pop()
                continue
            todo = [f[i] >> 1 for i in (0, 1) if f[i] >> 1 not in zv]
            if todo:
                st += todo
                continue
            st.pop()
            v = z3.Bool('n%d' % k)
            p, q = [z3.Not(zv[e >> 1]) if e & 1 else zv[e >> 1] for e in f]
            sol.add(z3.Or(v, z3.Not(p), z3.Not(q)), z3.Or(z3.Not(v), p), z3.Or(z3.Not(v), q))
            zv[k] = v
        return z3.Not(zv[n]) if l & 1 else zv[n]

    def lsig(l):
        return hs[l >> 1] ^ (full if l & 1 else 0)
    import time
    q0, t0 = 0, time.time()
    repl = {}                          # node of h -> literal it was merged into

    def find(l):
        while l >> 1 in repl:
            l = repl[l >> 1] ^ (l & 1)
        return l
    for n in nodes:
        if n == 0:
            continue
        f = g.fan[n]
        if f is None:
            l = h.inp(names[n])
            s = 0
            for i in range(W):
                s |= rng.getrandbits(1) << i
            if bias:
                b = bias(names[n])
                if b is not None:
                    s &= rng.getrandbits(W) if b else 0
            hs[l >> 1] = s
            k = s if not s & 1 else s ^ full
            cls.setdefault(k, []).append(l >> 1)
            mp[n] = l
            continue
        a, b = [find(mp[e >> 1] ^ (e & 1)) for e in f]
        l = find(h.AND(a, b))
        k = l >> 1
        if k not in hs:
            s = lsig(a) & lsig(b)
            hs[k] = s
            norm = s if not s & 1 else s ^ full
            for c in cls.get(norm, ()):
                lit = 2 * c ^ (1 if hs[c] != s else 0)
                # prove node k == literal lit
                x, y = zl(2 * k), zl(lit)
                q0 += 1
                r1 = sol.check(x, z3.Not(y))
                if r1 == z3.unsat:
                    r1 = sol.check(z3.Not(x), y)
                    if r1 == z3.unsat:
                        sol.add(x == y)
                        repl[k] = lit
                        l = find(lit ^ (l & 1))
                        break
            else:
                cls.setdefault(norm, []).append(k)
        mp[n] = l
    smt.STAT['queries'] += q0
    smt.STAT['s'] += time.time() - t0
    if stat is not None:
        stat.update(nodes=len(nodes), merged=len(repl), queries=q0)
    res = True
    for p, q in pairs:
        p, q = find(mp[p >> 1] ^ (p & 1)), find(mp[q >> 1] ^ (q & 1))
        if p == q:
            continue
        r = sol.check(zl(p) != zl(q))
        if r == z3.sat:
            return False
        if r != z3.unsat:
            res = None
    return res
