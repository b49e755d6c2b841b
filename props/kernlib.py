import math
from hydrolib import *
import calculus as C
from fractions import Fraction as Fr

KERNELS = 'cubic_spline quintic_spline wendland_c2 wendland_c4 wendland_c6 gaussian super_gaussian sinc_ker'.split()
R, H, Q = t.sym('r', 'f'), t.sym('h', 'f'), t.sym('q', 'f')
SINC = 'g:_ZN5param15_sph_sinc_indexE+0'
Z = t.fc(0.0)
SPHERE = [2.0, 2 * math.pi, 4 * math.pi]


def khook(name, idx, g):
    if name == SINC:
        return g.rng.choice([3.0, 4.0, 5.0, 6.0, 7.5, 9.0, 12.0])
    if name == 'h':
        return g.rng.choice([1.0, 0.5, 2.0, g.rng.uniform(.05, 3), g.rng.uniform(.05, 3)])
    if name == 'r':
        h = g.env['*'](H)
        k = g.rng.random()
        if k < .2:
            return h * g.rng.choice([0.0, 1 / 3., .5, 2 / 3., 1.0, 1.5, 2.0, 1e-7])
        if k < .8:
            return h * g.rng.uniform(0, 1.0)
        return h * g.rng.uniform(1.0, 4)
    return None


class Kern:
    def __init__(self, ck, D, K):
        self.ck, self.D, self.K = ck, D, K
        w = World(ck.mod(D))
        self.w = Run(w, ck.nat(D), 'w_k_' + K, [R, H], ir.F64)
        w = World(ck.mod(D))
        self.x, self.o = w.doubles('x', D), w.out('o', 8 * D)
        self.g = Run(w, ck.nat(D), 'w_g_' + K, [self.x, H, self.o])
        self.xs = [w.get(self.x, 8 * i) for i in range(D)]

    def W(self, r, h):
        """the kernel's value as a term in r and h"""
        return t.subst(self.w.val, {R: r, H: h})

    def name(self, s):
        return '%s/%s/%dD' % (s, self.K, self.D)

    def sincs(self):
        return [3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0, 10.0, 11.0, 12.0] if self.K == 'sinc_ker' else [None]

    def nW(self, r, h, n=None):
        """native value"""
        import ctypes
        nat = self.ck.nat(self.D)
        if n is not None:
            a = nat.addr(SINC[2:].split('+')[0])
            ctypes.memmove(a, ctypes.byref(ctypes.c_double(n)), 8)
        f = getattr(nat.lib, 'w_k_' + self.K)
        f.restype = ctypes.c_double
        return f(ctypes.c_double(r), ctypes.c_double(h))
