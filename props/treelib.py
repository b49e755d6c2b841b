"""tree nodes"""
from hydrolib import *
NS, NV = ['mass', 'radius', 'lap', 'pc'], ['pos', 'bmin', 'bmax', 'fc']


def node_type(m):
    c = [k for k in m.types if k.startswith('%class.node_u')]
    if not c:
        raise sx.Unsupported('no node type')
    return sorted(c, key=len)[0]


def nfields(m, D):
    """node field -> byte offset, read off the accessors"""
    w = World(m)
    P = w.obj('P', node_type(m))
    inv = {w.get(P, o, f): o for o, f in P.fields.items() if f[0] != 'p'}
    F = {}
    for n in NS + ['sub', 'key']:
        st, v = sx.Exec(m).call(sx.State({}, t.TRUE, {}), '@n_' + n, [sx.Ptr(P, 0)])
        v = t.strip_ext(v) if v.s != 'f' else v
        if v not in inv:
            raise sx.Unsupported('accessor %s does not read one field' % n)
        F[n] = inv[v]
    for n in NV:
        o = w.out('o', 8 * D)
        ex = sx.Exec(m)
        st, v = ex.call(sx.State({}, t.TRUE, {}), '@n_' + n, [sx.Ptr(P, 0), sx.Ptr(o, 0)])
        F[n] = [inv[ex.load(st, sx.Ptr(o, 8 * i), ir.F64)] for i in range(D)]
    return F


def fmax(a, b):
    return t.ite(t.flt(a, b), b, a)


def fmin(a, b):
    return t.ite(t.flt(b, a), b, a)


def bound_ob(ck, name, run, where, vec, term, upper=True, pre=(), hook=None, n=200, ctx=real.Ctx):
    """obligation: output `where` is an upper (lower) bound of term(k) for every
    element k of vec.  By induction over the loop: every iteration keeps the
    running value's bound and takes element k into account"""
    read, val = ck.reader(run, where)
    N = run.w.vecs[vec]['n']
    kk = t.sym('kb', 64, 2 ** 31 - 2)
    le = (lambda a, b: t.fle(a, b)) if upper else (lambda a, b: t.fle(b, a))

    def proof():
        ck.tested(run, 20, hook=hook, pre=pre)
        v, found = val(), False
        while v.op == 'fold':
            k, acc = v.d
            body = v.a[2]
            if ctx().valid(le(acc, body), list(pre), 30000) is not True:
                return None, 'an iteration does not keep the bound'
            if v.a[1] is N and ctx().valid(le(t.subst(term(kk), {kk: k}), body), list(pre), 30000) is True:
                found = True
            v = v.a[0]
        return found or (False, 'elements are not covered')

    def judge(r, b, g):
        got = read(r, b)
        for i in range(ev(N, g)):
            x = ev(t.subst(term(kk), {kk: t.bv(i, 64)}), g)
            if (got < x - 1e-9 * max(1, abs(x))) if upper else (got > x + 1e-9 * max(1, abs(x))):
                return dict(element=i, observed=got, bound=x)
    ck.ob(name, proof, lambda: ck.sample(run, judge, hook, pre, n, 5))
