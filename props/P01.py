"""Morton keys: interleaved cell indices, prefixes, inversion, boxes"""
from keylib import *


def body(ck):
    ck.build([(d, 'keys.cc', d, ()) for d in (1, 2, 3)])
    ck.assume('the cell index of a coordinate is the integer part of (p-min)/(max-min)*2^M, arithmetic on coordinates read as real')
    for D in (1, 2, 3):
        KS = Keys(ck, D)
        M = KS.M
        nm = lambda s: '%dD %s' % (D, s)
        # ---- key of every depth
        full = KS.mkey_spec(M)
        for d in range(M + 1):
            run, w = KS.run('w_mkey', [t.bv(d, 64)])
            KS.key_ob(nm('key at depth %d = 1 followed by the interleaved leading bits of the cell indices' % d), run, KS.mkey_spec(d))
        run, w = KS.run('w_mkey_full')
        KS.key_ob(nm('default key is the deepest one'), run, full)
        for d in range(M + 1):
            KS.lemma(nm('key at depth %d is a prefix of the deepest key' % d), t.eq(KS.mkey_spec(d), t.lshr(full, t.bv((M - d) * D, 64))))
        KS.lemma(nm('keys determine the cell (injective)'), KS.inj(full))
        # ---- inversion
        run, w = KS.run('w_mround', out=8 * D)
        for j in range(D):
            KS.invert_ob(nm('coordinates of the key are within one cell of the point, component %d' % j), run, j)
        # ---- boxes
        for d in range(M + 1):
            KS.range_ob(d, nm)
        for d in range(M + 1):
            KS.box_ob(d, nm)


if __name__ == '__main__':
    main('P01', body)
