"""bit-precise back end: terms -> z3 bit-vectors (floats uninterpreted or IEEE)"""
import re, time
import z3
import term as t


class BV:
    def __init__(self, fp=False, ufs=None):
        self.memo = {}
        self.fp = fp
        self.vars = {}
        self.ranges = []
        self.ufd = {}

    def var(self, x):
        n = '%s|%s' % (x.d, x.id)
        if x.s == 'b':
            v = z3.Bool(n)
        elif x.s == 'f':
            v = z3.FP(n, z3.Float64()) if self.fp else z3.BitVec(n, 64)
        else:
            v = z3.BitVec(n, x.s)
            if getattr(x.d, 'umax', None) is not None and x.d.umax < (1 << x.s) - 1:
                self.ranges.append(z3.ULE(v, z3.BitVecVal(x.d.umax, x.s)))
        self.vars[x] = v
        return v

    def sort(self, s):
        if s == 'b':
            return z3.BoolSort()
        if s == 'f':
            return z3.Float64() if self.fp else z3.BitVecSort(64)
        return z3.BitVecSort(s)

    def tr(self, x):
        m = self.memo
        st = [x]
        while st:
            y = st[-1]
            if y in m:
                st.pop()
                continue
            todo = [z for z in y.a if z not in m]
            if todo and y.op not in ('sum', 'fold'):
                st.extend(todo)
                continue
            m[y] = self._tr(y, [m.get(z) for z in y.a])
            st.pop()
        return m[x]

    def _tr(self, x, a):
        o, s = x.op, x.s
        if o == 'c':
            if s == 'b':
                return z3.BoolVal(bool(x.d))
            if s == 'f':
                if self.fp:
                    return z3.FPVal(x.d, z3.Float64())
                import struct
                return z3.BitVecVal(int.from_bytes(struct.pack('>d', x.d), 'big'), 64)
            return z3.BitVecVal(x.d, s)
        if o == 'sym':
            return self.var(x)
        if o == 'not':
            return z3.Not(a[0])
        if o == 'and':
            return z3.And(a)
        if o == 'or':
            return z3.Or(a)
        if o == 'ite':
            return z3.If(a[0], a[1], a[2])
        if o == 'lin':
            r = z3.BitVecVal(x.d[0], s) if x.d[0] else None
            for v, k in zip(a, x.d[1]):
                q = v if k == 1 else (-v if k == (1 << s) - 1 else v * z3.BitVecVal(k, s))
                r = q if r is None else r + q
            return r
        if o == 'mul':
            return a[0] * a[1]
        if o == 'bvand':
            r = a[0]
            for y in a[1:]:
                r = r & y
            return r
        if o == 'bvor':
            r = a[0]
            for y in a[1:]:
                r = r | y
            return r
        if o == 'bvxor':
            r = a[0]
            for y in a[1:]:
                r = r ^ y
            return r
        if o == 'shl':
            return a[0] << a[1]
        if o == 'lshr':
            return z3.LShR(a[0], a[1])
        if o == 'ashr':
            return a[0] >> a[1]
        if o == 'udiv':
            return z3.UDiv(a[0], a[1])
        if o == 'urem':
            return z3.URem(a[0], a[1])
        if o == 'sdiv':
            return a[0] / a[1]
        if o == 'srem':
            return z3.SRem(a[0], a[1])
        if o == 'zext':
            if x.a[0].s == 'b':
                return z3.If(a[0], z3.BitVecVal(1, s), z3.BitVecVal(0, s))
            return z3.ZeroExt(s - x.a[0].s, a[0])
        if o == 'sext':
            if x.a[0].s == 'b':
                return z3.If(a[0], z3.BitVecVal(-1, s), z3.BitVecVal(0, s))
            return z3.SignExt(s - x.a[0].s, a[0])
        if o == 'trunc':
            return z3.Extract(s - 1, 0, a[0])
        if o == 'b2i':
            return z3.If(a[0], z3.BitVecVal(1, s), z3.BitVecVal(0, s))
        if o == 'eq':
            return a[0] == a[1]
        if o == 'ult':
            return z3.ULT(a[0], a[1])
        if o == 'slt':
            return a[0] < a[1]
        if self.fp:
            rm = z3.RNE()
            if o == 'fadd':
                return z3.fpAdd(rm, a[0], a[1])
            if o == 'fsub':
                return z3.fpSub(rm, a[0], a[1])
            if o == 'fmul':
                return z3.fpMul(rm, a[0], a[1])
            if o == 'fdiv':
                return z3.fpDiv(rm, a[0], a[1])
            if o == 'fneg':
                return z3.fpNeg(a[0])
            if o == 'feq':
                return z3.fpEQ(a[0], a[1])
            if o == 'flt':
                return z3.fpLT(a[0], a[1])
            if o == 'fle':
                return z3.fpLEQ(a[0], a[1])
            if o == 'isnan':
                return z3.fpIsNaN(a[0])
            if o == 'sitofp':
                return z3.fpSignedToFP(rm, a[0], z3.Float64())
            if o == 'uitofp':
                return z3.fpUnsignedToFP(rm, a[0], z3.Float64())
            if o == 'fptoui':
                return z3.fpToUBV(z3.RTZ(), a[0], z3.BitVecSort(s))
            if o == 'fptosi':
                return z3.fpToSBV(z3.RTZ(), a[0], z3.BitVecSort(s))
            if o == 'fn' and x.d == 'fabs':
                return z3.fpAbs(a[0])
            if o == 'fn' and x.d == 'sqrt':
                return z3.fpSqrt(rm, a[0])
            if o == 'b2f':
                return z3.fpBVToFP(a[0], z3.Float64())
        # uninterpreted
        if o in ('sum', 'fold'):
            v = z3.Const('fold%d' % x.id, self.sort(s))
            return v
        key = (o, str(x.d), tuple(y.s for y in x.a), s)
        f = self.ufd.get(key)
        if f is None:
            f = z3.Function('u%d_%s_%s' % (len(self.ufd), o, x.d), *([self.sort(y.s) for y in x.a] + [self.sort(s)]))
            self.ufd[key] = f
        return f(*a)


STAT = {'queries': 0, 's': 0.0}


def valid(c, facts=(), timeout=60000, fp=False, model=False, tactic=None):
    """True / False(model) / None for 'facts -> c', bit-precise"""
    if c is t.TRUE:
        return (True, None) if model else True
    b = BV(fp)
    s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
    s.set('timeout', timeout)
    fs = [b.tr(f) for f in facts]
    g = z3.Not(b.tr(c))
    t0 = time.time()
    s.add(*fs)
    s.add(*b.ranges)
    s.add(g)
    r = s.check()
    STAT['queries'] += 1
    STAT['s'] += time.time() - t0
    if r == z3.unsat:
        return (True, None) if model else True
    if r == z3.sat:
        if model:
            mm = s.model()
            return False, {x: mm.eval(v, model_completion=True) for x, v in b.vars.items()}
        return False
    return (None, None) if model else None


EXACT = {'c', 'sym', 'not', 'and', 'or', 'ite', 'lin', 'mul', 'bvand', 'bvor', 'bvxor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem',
         'zext', 'sext', 'trunc', 'b2i', 'eq', 'ult', 'slt', 'uf'}


def refute(c, facts=(), timeout=20000):
    """a case in which c fails: ({input: value}, exact).  exact: integers only, no summary whose value is unknown, so that
    the case is a real one; lengths are kept small where that is possible"""
    b = BV(False)
    s = z3.Solver()
    s.set('timeout', timeout)
    ts = list(t.walk(c, *facts))
    s.add([b.tr(f) for f in facts])
    s.add(z3.Not(b.tr(c)))
    s.add(*b.ranges)
    exact = all(y.op in EXACT and y.s != 'f' and not (y.op == 'sym' and re.match('undef|lost|opaque|c:|k!|i!|j!', str(y.d))) for y in ts)
    lens = [v for y in ts if y.op == 'sym' and str(y.d).startswith('n_') for v in [b.tr(y)]]
    for cap in (8, 600, None):
        s.push()
        if cap:
            s.add([z3.ULE(v, cap) for v in lens])
        if s.check() == z3.sat:
            break
        s.pop()
        if not lens:
            return {}, False
    else:
        return {}, False
    m = s.model()
    val = lambda y: m.eval(b.tr(y), model_completion=True)

    def num(v):
        return bool(z3.is_true(v)) if z3.is_bool(v) else v.as_long()
    r = {}
    for y in ts:
        try:
            if y.op == 'sym' and y.s != 'f':
                r[str(y.d)] = num(val(y))
            elif y.op == 'uf' and y.s != 'f' and all(x.s != 'f' for x in y.a):
                ix = [num(val(x)) for x in y.a]
                r['%s[%s]' % (y.d, ix[0] if len(ix) == 1 else tuple(ix))] = num(val(y))
        except (AttributeError, z3.Z3Exception):
            pass
    if cap is None and any(num(m.eval(v, model_completion=True)) > 20000 for v in lens):
        return dict(r, **{'*large': 1}), exact
    return r, exact


class Feas:
    """feasibility oracle for the executor"""

    def __init__(self, facts=(), timeout=5000, fp=False):
        self.facts, self.timeout, self.fp = list(facts), timeout, fp

    def feasible(self, g):
        if g is t.FALSE:
            return False
        return valid(t.not_(g), self.facts, self.timeout, self.fp) is not True
