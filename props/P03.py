"""keys as digit strings: depth, push, pop, truncate, ancestors, order"""
from keylib import *

b64 = lambda k: t.bv(k, 64)


def body(ck):
    ck.build([(d, 'keys.cc', d, ()) for d in (1, 2, 3)])
    for D in (1, 2, 3):
        m, nat = ck.mod(D), ck.nat(D)
        M = 63 // D
        nm = lambda s: '%dD %s' % (D, s)
        v, u, n = t.sym('v', 64), t.sym('u', 64), t.sym('n', 64)
        at = lambda x, d: t.eq(t.lshr(x, b64(d * D)), b64(1))
        valid = lambda x, lo=0, hi=M: t.or_(*[at(x, d) for d in range(lo, hi + 1)])

        def pick(x, f, lo=0, hi=M):
            r = f(lo)
            for d in range(lo + 1, hi + 1):
                r = t.ite(at(x, d), f(d), r)
            return r
        depth = lambda x: pick(x, b64)

        def hook(name, idx, g):
            if name in ('v', 'u'):
                d = g.rng.choice([0, 1, M, M - 1, g.rng.randint(0, M), g.rng.randint(0, M), M, M])
                if name == 'u' and g.rng.random() < .5 and g.env is not None:
                    w0 = g.env['*'](v)
                    return w0 ^ (1 << g.rng.randint(0, max(0, w0.bit_length() - 2))) if w0 > 1 else w0
                k = 1 << (d * D)
                return k | g.rng.choice([0, k - 1, g.rng.getrandbits(63) & (k - 1)])
            if name == 'n':
                return g.rng.choice([0, 1, 2, M, M + 1, g.rng.randint(0, M)])
            return None

        def ob(name, f, args, spec, pre, where='ret', out=False, w=None):
            w = w or World(m)
            a = list(args)
            if out:
                o = w.out('o', 8)
                a.append(o)
            run = Run(w, nat, f, a, ('i', 64))
            rd, val = ck.reader(run, where if where == 'ret' else (w.objs['o'], 0, ('i', 64)))

            def proof():
                ck.tested(run, 20, hook=hook, pre=pre)
                return smt.valid(t.eq(val(), spec), pre, 60000)
            ck.ob(nm(name), proof, lambda: ck.search_terms(run, [(rd, spec)], hook, pre), backend='z3 bit-vectors')
            return run
        sh = lambda x, k: t.lshr(x, k)
        digit = t.bvand(v, b64((1 << D) - 1))
        ok = [valid(v)]
        ob('depth counts the digits', 'w_depth', [v], depth(v), ok)
        ob('push appends a digit', 'w_push', [v, n], t.bvor(t.shl(v, b64(D)), n), [valid(v, 0, M - 1), t.ult(n, b64(1 << D))])
        deep = [valid(v, 1)]
        ob('pop drops the last digit', 'w_pop', [v], sh(v, b64(D)), deep)
        ob('pop_value drops the last digit', 'w_pop_value', [v], sh(v, b64(D)), deep, out=True)
        ob('pop_value returns the last digit', 'w_pop_value', [v], digit, deep, where='o', out=True)
        ob('last_value is the last digit', 'w_last_value', [v], digit, deep)
        ob('parent drops the last digit', 'w_parent', [v], sh(v, b64(D)), deep)
        nd = t.mul(n, b64(D)) if hasattr(t, 'mul') else None
        times = b64(0)
        for k in range(M, 0, -1):
            times = t.ite(t.eq(n, b64(k)), sh(v, b64(k * D)), v if k == M else times)
        times = v
        for k in range(1, M + 1):
            times = t.ite(t.eq(n, b64(k)), sh(v, b64(k * D)), times)
        ob('pop(n) drops the last n digits', 'w_popn', [v, n], times, ok + [t.ule(n, depth(v))])
        # truncate to n digits: v >> D*(depth-n) when depth >= n
        tr = v
        for d in range(M + 1):
            for k in range(d):
                pass
        cut = v
        for k in range(1, M + 1):
            cut = t.ite(t.eq(t.sub(depth(v), n), b64(k)), sh(v, b64(k * D)), cut)
        ob('truncate keeps the first n digits, shorter keys are left', 'w_truncate', [v, n], t.ite(t.ult(depth(v), n), v, cut), ok + [t.ule(n, b64(M + 1))])
        ob('a pushed digit is popped again', 'w_push_pop', [v, n], n, [valid(v, 0, M - 1), t.ult(n, b64(1 << D))], where='o', out=True)
        ob('popping a pushed digit restores the key', 'w_push_pop', [v, n], v, [valid(v, 0, M - 1), t.ult(n, b64(1 << D))], out=True)
        # constants
        ob('root has no digits', 'w_root', [], b64(1), [])
        ob('null is no key', 'w_null', [], b64(0), [])
        ob('only the null key is null', 'w_is_null', [v], t.ite(t.eq(v, b64(0)), b64(1), b64(0)), [])
        ob('a default key is null', 'w_default', [], b64(0), [])
        ob('the deepest level uses all digits the word holds', 'w_max_depth', [], b64(M), [])
        ob('min is the smallest deepest key', 'w_min', [], b64(1 << (M * D)), [])
        ob('max is the largest deepest key', 'w_max', [], b64((2 << (M * D)) - 1), [])
        ob('copies are equal', 'w_copy', [v], v, [])
        z = lambda c, k: t.ite(c, b64(1 << k), b64(0))
        e, l = t.eq(v, u), t.ult(v, u)
        spec = b64(0)
        for k, c in enumerate([e, t.not_(e), l, t.or_(l, e), t.not_(t.or_(l, e)), t.not_(l)]):
            spec = t.bvor(spec, z(c, k))
        ob('comparison orders keys of one depth by their digits', 'w_cmp', [v, u], spec, [])
        same = b64(0)
        for d in range(1, M + 1):
            same = t.ite(t.eq(sh(v, b64((M - d) * D)), sh(u, b64((M - d) * D))), b64(d), same)
        ob('conflict depth of two deepest keys is the depth of their deepest common ancestor', 'w_conflict', [v, u], same, [at(v, M), at(u, M)])


if __name__ == '__main__':
    main('P03', body)
