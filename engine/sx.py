"""Symbolic executor / obligation generator over LLVM IR.

Executes a function of the compiled real code once, merging states at joins
(guarded SSA), unrolling loops whose trip count is a constant completely, and
replacing loops over data of symbolic length by an exact summary (affine
induction variables, additive folds, per-index array writes).  Anything outside
what it understands raises Unsupported: nothing is approximated silently.
"""
import itertools, re
import ir
import term as t
from term import TRUE, FALSE, and_, or_, not_, ite, bv, fc, B

I64T = 64
KMAX = 2 ** 31 - 1          # every container / loop has fewer than 2^31 elements


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ objects
class Obj:
    _n = itertools.count()
    external = False
    ufp = None

    def __init__(self, name, size=None, kind='undef', elem=None, fields=None, ptrs=None, log=False, const=False,
                 bytes_=None):
        """size: int bytes or None (symbolic length).  kind: what an unwritten
        location holds: 'undef' fresh unknown, 'input' symbolic value named
        after the location, 'zero'.  elem: stride of a symbolic-length array;
        fields: {offset: ir scalar type} of the object or of one element.
        ptrs: {offset: Ptr or callable(index)->Ptr}"""
        self.id = next(Obj._n)
        self.name, self.size, self.kind, self.elem = name, size, kind, elem
        self.fields, self.ptrs, self.log, self.const = fields, ptrs or {}, log, const
        self.addr = t.sym('&' + name + '#%d' % self.id, 64, umax=2 ** 47)
        self.sizet = None
        self.freed = False
        self.fresh = False
        self.init = {}       # offset -> value (initial content)

    def __repr__(self):
        return '<%s>' % self.name


NULL = Obj('null', 0)
NULL.addr = bv(0, 64)
INTP = Obj('intptr', 0)
INTP.addr = bv(0, 64)


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off):
        self.o, self.off = o, (bv(off, 64) if isinstance(off, int) else off)

    def __repr__(self):
        return 'Ptr(%s+%r)' % (self.o.name, self.off)

    def add(self, d):
        return Ptr(self.o, t.add(self.off, d if isinstance(d, t.T) else bv(d, 64)))


class PSet:
    """guarded pointers (mutually exclusive guards)"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return 'PSet(%r)' % (self.alts,)


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Fn(%s)' % self.name


NULLP = Ptr(NULL, 0)


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.o is b.o and a.off is b.off
    if isinstance(a, Fn) and isinstance(b, Fn):
        return a.name == b.name
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same(x, y) for x, y in zip(a, b))
    return False


def palts(p):
    if isinstance(p, PSet):
        return p.alts
    return [(TRUE, p)]


def vite(g, a, b):
    """value-level if-then-else"""
    if g is TRUE or same(a, b):
        return a
    if g is FALSE:
        return b
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if isinstance(a, t.T) and isinstance(b, t.T):
        if a.s != b.s:
            if a.s == 'f' and b.s == 64:
                b = t.b2f(b)
            elif a.s == 64 and b.s == 'f':
                a = t.b2f(a)
            else:
                raise Unsupported('merge of sorts %s %s' % (a.s, b.s))
        return ite(g, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return tuple(vite(g, x, y) for x, y in zip(a, b))
    if isinstance(a, t.T) and a.c and a.d == 0:
        a = NULLP
    if isinstance(b, t.T) and b.c and b.d == 0:
        b = NULLP
    if isinstance(a, (Ptr, PSet, Fn)) and isinstance(b, (Ptr, PSet, Fn)):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o is b.o:
            return Ptr(a.o, ite(g, a.off, b.off))
        out = []
        ng = not_(g)
        for gg, p in palts(a):
            out.append((and_(g, gg), p))
        for gg, p in palts(b):
            g2 = and_(ng, gg)
            for i, (h, q) in enumerate(out):
                if same(p, q):
                    out[i] = (or_(h, g2), q)
                    break
                if isinstance(p, Ptr) and isinstance(q, Ptr) and p.o is q.o:
                    out[i] = (or_(h, g2), Ptr(p.o, ite(g2, p.off, q.off)))
                    break
            else:
                out.append((g2, p))
        out = [(h, q) for h, q in out if h is not FALSE]
        if len(out) == 1:
            return out[0][1]
        return PSet(out)
    raise Unsupported('merge %r / %r' % (a, b))


# ------------------------------------------------------------------ memory
class W:
    """one logged write.  k/n None: a single write; else for all 0<=k<n"""
    __slots__ = ('g', 'off', 'size', 'val', 'k', 'n')

    def __init__(self, g, off, size, val, k=None, n=None):
        self.g, self.off, self.size, self.val, self.k, self.n = g, off, size, val, k, n


class OS:
    """content of one object: cells for constant offsets, or a write log"""
    __slots__ = ('cells', 'log')

    def __init__(self, cells=None, log=None):
        self.cells = cells if cells is not None else {}
        self.log = log

    def copy(self):
        return OS(dict(self.cells), list(self.log) if self.log is not None else None)


class State:
    __slots__ = ('env', 'g', 'mem', 'own')

    def __init__(self, env, g, mem):
        self.env, self.g, self.mem, self.own = env, g, mem, set()

    def fork(self, g):
        s = State(self.env, g, dict(self.mem))
        self.own = set()
        return s

    def os(self, o):
        r = self.mem.get(o)
        if r is None:
            r = OS(log=[] if o.log else None)
            self.mem[o] = r
            self.own.add(o)
        return r

    def osw(self, o):
        r = self.os(o)
        if o not in self.own:
            r = r.copy()
            self.mem[o] = r
            self.own.add(o)
        return r


_fresh = itertools.count()


def fresh(name, s, umax=None):
    return t.sym('%s!%d' % (name, next(_fresh)), s, umax)


def sort_of(ty):
    if ty[0] == 'i':
        return 'b' if ty[1] == 1 else ty[1]
    if ty[0] == 'f':
        return 'f'
    raise Unsupported('sort of %r' % (ty,))


class Frame:
    pass


def wto(fn):
    """positions of blocks in a weak topological order and loop nests"""
    blocks = fn.blocks
    succ = {b: [s for s in blocks[b].succs()] for b in blocks}
    pos, loops, cnt = {}, {}, itertools.count()

    def scc(nodes, entry):
        nodes = set(nodes)
        idx, low, onst, st, out = {}, {}, set(), [], []
        ctr = itertools.count()

        def dfs(root):
            work = [(root, iter([s for s in succ[root] if s in nodes]))]
            idx[root] = low[root] = next(ctr)
            st.append(root)
            onst.add(root)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in idx:
                        idx[w] = low[w] = next(ctr)
                        st.append(w)
                        onst.add(w)
                        work.append((w, iter([s for s in succ[w] if s in nodes])))
                        adv = True
                        break
                    elif w in onst:
                        low[v] = min(low[v], idx[w])
                if adv:
                    continue
                work.pop()
                if work:
                    u = work[-1][0]
                    low[u] = min(low[u], low[v])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = st.pop()
                        onst.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    out.append(comp)
        if entry in nodes:
            dfs(entry)
        return list(reversed(out))

    def go(nodes, entry):
        # entry: the block through which the region is entered
        for comp in scc(nodes, entry):
            if len(comp) == 1 and comp[0] not in succ[comp[0]]:
                pos[comp[0]] = next(cnt)
            else:
                cs = set(comp)
                # header: block with predecessor outside comp
                heads = [b for b in comp if b == fn.entry or any(p not in cs and b in succ[p] for p in blocks)]
                h = heads[0] if len(heads) == 1 else comp[-1]
                if len(heads) != 1:
                    loops[h] = None
                else:
                    loops[h] = cs
                pos[h] = next(cnt)
                rest = cs - {h}
                # order the rest: SCCs reachable from h's successors
                sub_order(rest, h)

    def sub_order(rest, h):
        # topological order of SCCs of rest, entered from successors of h
        entries = [s for s in succ[h] if s in rest]
        # virtual entry
        ve = '%%virt' + h
        succ[ve] = entries
        for comp in scc(rest | {ve}, ve):
            if comp == [ve]:
                continue
            if len(comp) == 1 and comp[0] not in succ[comp[0]]:
                pos[comp[0]] = next(cnt)
            else:
                cs = set(comp)
                heads = [b for b in comp if any(p not in cs and b in succ[p] for p in blocks)]
                hh = heads[0]
                loops[hh] = cs if len(heads) == 1 else None
                pos[hh] = next(cnt)
                sub_order(cs - {hh}, hh)
        del succ[ve]

    go(set(blocks), fn.entry)
    return pos, loops


class Oblig:
    __slots__ = ('kind', 'g', 'cond', 'what')

    def __init__(self, kind, g, cond, what):
        self.kind, self.g, self.cond, self.what = kind, g, cond, what


OPAQUE = re.compile(
    r'^_ZStls|^_ZNSo|^_ZNSt7__cxx1118basic_string|^_ZNSt7__cxx1119basic_ostring|^_ZNSt8ios_base|^_ZNKSt7__cxx1118basic_string'
    r'|^_ZSt16__ostream|^_ZNKSt8?__?locale|^_ZNKSt5ctype|^_ZSt4endl|^_ZSt5flush|^_ZNSt9basic_ios|^fprintf$|^printf$|^puts$|^putchar$|^fflush$|^fputs$|^fwrite$|^_ZNKSt9basic_ios|^_ZNSi|^_ZNSt6locale'
    r'|^_ZN7flecsph5log_t|^_ZN7flecsph|^_ZSt16__throw_bad_cast|^_ZNSt15basic_streambuf|^_ZN6flecsilsI|^strlen$')


STREAM = re.compile(r'g:@?_ZSt4(cerr|cout|clog)$')


class Exec:
    def __init__(self, mod, contracts=None, globals_=None, max_unroll=80, solver=None, summarize=True, strict_mem=True):
        self.m = mod
        self.contracts = contracts or {}     # name -> handler(ex, st, args, ins) -> value
        self.gbind = globals_ or {}          # global name -> value spec
        self.gobj = {}
        self.obligs, self.asserts, self.aborts = [], [], []
        self.calls = []                      # contract call log
        self.assumed = set()                 # names of opaque functions used
        self.functions = set()               # functions whose body was executed
        self.max_unroll = max_unroll
        self.solver = solver
        self.wto_cache = {}
        self.summarize = summarize
        self.loops_sum, self.loops_unr = 0, 0
        self.depth = 0
        self.trace_reads = None
        self.trace_writes = None
        self.opaque_rx = [OPAQUE]
        self.notes = set()
        self.sumfail = []
        self.invs = {}                       # function regex -> invariant(values) -> (condition, measure)
        self.inv_done, self.inv_facts = [], []

    # ---------------------------------------------------------------- values
    def const(self, st, ty, v):
        k = v[0]
        if k == 'c':
            if v[1][0] == 'f':
                return fc(v[2])
            if v[1][1] == 1:
                return B(v[2] & 1)
            return bv(v[2], v[1][1])
        if k == 'v':
            try:
                return st.env[v[1]]
            except KeyError:
                raise Unsupported('value %s undefined here' % v[1])
        if k == 'null':
            return NULLP
        if k == 'g':
            return self.gaddr(v[1])
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return self.zero(ty)
        if k == 'gep':
            base = self.const(st, ir.PTR, v[2][0][1])
            return self.gep(st, v[1], base, v[2][1:])
        if k == 'cast':
            x = self.const(st, v[2], v[3])
            return self.cast(v[1], x, v[2], v[4])
        if k == 'cebin':
            return self.binop(v[1], self.const(st, v[2], v[3]), self.const(st, v[2], v[4]), v[2], st)
        if k == 'ceicmp':
            return self.icmp(v[1], self.const(st, v[2], v[3]), self.const(st, v[2], v[4]))
        if k == 'agg':
            return tuple(self.const(st, et, ev) for et, ev in v[1])
        raise Unsupported('const %r' % (v,))

    def zero(self, ty):
        ty = self.m.resolve(ty)
        if ty[0] == 'i':
            return FALSE if ty[1] == 1 else bv(0, ty[1])
        if ty[0] == 'f':
            return fc(0.0)
        if ty[0] == 'p':
            return NULLP
        if ty[0] == 'l':
            return tuple(self.zero(x) for x in ty[1])
        if ty[0] in ('a', 'vec'):
            return tuple(self.zero(ty[2]) for _ in range(ty[1]))
        raise Unsupported('zero')

    def gaddr(self, name):
        name = self.m.aliases.get(name, name)
        if name in self.m.funcs or name in self.m.decls:
            return Fn(name)
        o = self.gobj.get(name)
        if o is None:
            ty, init, const = self.m.global_info(name)
            try:
                size = self.m.size(ty)
                fields = dict(self.m.flatten(ty)) if size <= 65536 else None
            except ir.IRError:
                size, fields = None, None
            o = Obj('g:' + name[1:], size, 'input', fields=fields, const=const)
            o.external = self.m.globals[name]['external']
            self.gobj[name] = o
            if name in self.gbind:
                b = self.gbind[name]
                if callable(b):
                    b(self, o)
                else:
                    o.init.update(b)
            elif o.external and re.match(r'@_ZTI[a-z]$', name):
                # type_info of a fundamental type: only its name is read
                nm = Obj('name:' + name[5:], 2, 'input', const=True)
                nm.init.update({0: bv(ord(name[5]), 8), 1: bv(0, 8)})
                o.init[8] = Ptr(nm, 0)
                o.size = 16
            elif const and init is not None:
                o.kind = 'input'
                self.init_cells(o, ty, init, 0)
        return Ptr(o, 0)

    def init_cells(self, o, ty, init, base):
        r = self.m.resolve(ty)
        if init[0] == 'zero' or init[0] == 'undef':
            for off, ft in self.m.flatten(ty, base):
                o.init[off] = self.zero(ft)
            return
        if init[0] == 'bytes':
            for i, b in enumerate(init[1]):
                o.init[base + i] = bv(b, 8)
            return
        if init[0] == 'agg':
            if r[0] in ('a', 'vec'):
                sz = self.m.size(r[2])
                for i, (et, ev) in enumerate(init[1]):
                    self.init_cells(o, et, ev, base + i * sz)
            else:
                for i, (et, ev) in enumerate(init[1]):
                    fo, _ = self.m.field_off(ty, i)
                    self.init_cells(o, et, ev, base + fo)
            return
        st = State({}, TRUE, {})
        o.init[base] = self.const(st, ty, init)

    # ---------------------------------------------------------------- memory
    def default(self, o, off, size, ty):
        """value an unwritten location holds (off: int)"""
        if off in o.init:
            return o.init[off]
        if o.init and o.kind != 'undef':
            # inside an initialised wider cell?
            for io, iv in o.init.items():
                if isinstance(iv, t.T) and io <= off and off + size <= io + self.tsize(iv):
                    return self.extract(iv, off - io, ty)
        if o.kind == 'zero':
            return self.zero(ty)
        if o.kind == 'input':
            if ty[0] == 'p':
                if off in o.ptrs:
                    return o.ptrs[off]
                if getattr(o, 'external', False):
                    return Ptr(o, off)
                raise Unsupported('pointer field %s+%d not described' % (o.name, off))
            ft = (o.fields or {}).get(off)
            if ft is not None and ft != ty and self.m.size(ft) == size:
                v = self.default(o, off, size, ft)
                return self.retype(v, ty)
            if ft is not None and ft == ty or o.fields is None or ty[0] != 'p':
                if ft is None and o.fields is not None:
                    # part of a wider field?
                    for fo, f in o.fields.items():
                        if f[0] in 'if' and fo <= off and off + size <= fo + self.m.size(f):
                            return self.extract(self.default(o, fo, self.m.size(f), f), off - fo, ty)
                    # composed of narrower fields
                    parts = [(fo, f) for fo, f in sorted(o.fields.items()) if off <= fo < off + size]
                    if parts and ty[0] in 'if' and all(f[0] in 'if' for _, f in parts):
                        acc = bv(0, size * 8)
                        for fo, f in parts:
                            x = self.default(o, fo, self.m.size(f), f)
                            x = self.asint(x, self.m.size(f) * 8)
                            acc = t.bvor(acc, t.shl(t.zext(x, size * 8), bv((fo - off) * 8, size * 8)))
                        return self.retype(acc, ty)
                s = sort_of(ty)
                if s == 'b':
                    raise Unsupported('i1 input')
                um = None
                if o.fields and ft and isinstance(ft, tuple) and len(ft) > 2:
                    um = ft[2]
                v = t.sym('%s+%d' % (o.name, off), s, um)
                return v
        # undefined contents
        if ty[0] == 'p':
            return UNDEF
        return fresh('undef:%s+%d' % (o.name, off), sort_of(ty))

    def tsize(self, v):
        if isinstance(v, (Ptr, PSet, Fn)):
            return 8
        if isinstance(v, t.T):
            if v.s == 'f':
                return 8
            if v.s == 'b':
                return 1
            return v.s // 8
        raise Unsupported('tsize')

    def asint(self, v, w):
        if isinstance(v, (Ptr,)):
            v = self.ptrint(v)
        if v is UNDEF:
            return fresh('undef', w)
        if v.s == 'f':
            v = t.f2b(v)
        if v.s == 'b':
            v = t.zext(v, 8)
        return v

    def ptrint(self, p):
        if isinstance(p, Ptr):
            return t.add(p.o.addr, p.off)
        if isinstance(p, PSet):
            r = None
            for g, q in p.alts:
                x = self.ptrint(q)
                r = x if r is None else ite(g, x, r)
            return r
        raise Unsupported('ptrtoint %r' % (p,))

    def retype(self, v, ty):
        if v is UNDEF:
            return UNDEF if ty[0] == 'p' else fresh('undef', sort_of(ty))
        if isinstance(v, (Ptr, PSet, Fn)):
            if ty[0] == 'p':
                return v
            if ty == ('i', 64):
                return self.ptrint(v)
            raise Unsupported('pointer as %r' % (ty,))
        if ty[0] == 'p':
            if v.c and v.d == 0:
                return NULLP
            raise Unsupported('int as pointer: %r' % (v,))
        s = sort_of(ty)
        if v.s == s:
            return v
        if s == 'f' and v.s == 64 and ty[1] == 64:
            return t.b2f(v)
        if v.s == 'f' and s == 64:
            return t.f2b(v)
        if s == 'b' and v.s == 8:
            return t.not_(t.eq(t.bvand(v, bv(1, 8)), bv(0, 8)))
        if v.s == 'b' and s == 8:
            return t.zext(v, 8)
        raise Unsupported('retype %r -> %r' % (v.s, ty))

    def extract(self, v, delta, ty):
        v = self.asint(v, None)
        size = self.m.size(ty)
        if delta * 8 + size * 8 > v.s:
            raise Unsupported('extract')
        x = t.trunc(t.lshr(v, bv(delta * 8, v.s)), size * 8)
        return self.retype(x, ty)

    def overlap(self, cells, off, size):
        return [o2 for o2 in range(off - 15, off + size) if o2 in cells and o2 + cells[o2][0] > off]

    def load(self, st, p, ty):
        if isinstance(p, PSet):
            r = None
            for g, q in reversed(p.alts):
                if q.o is NULL if isinstance(q, Ptr) else False:
                    self.oblig('null-deref', and_(st.g, g), FALSE, 'load')
                    continue
                x = self.load(st, q, ty)
                r = x if r is None else vite(g, x, r)
            if r is None:
                raise Unsupported('load of null')
            return r
        if not isinstance(p, Ptr):
            raise Unsupported('load through %r' % (p,))
        ty = self.m.resolve(ty)
        if ty[0] in ('l', 'a', 'vec'):
            if ty[0] == 'l':
                return tuple(self.load(st, p.add(self.m.field_off(ty, i)[0]), ty[1][i]) for i in range(len(ty[1])))
            sz = self.m.size(ty[2])
            return tuple(self.load(st, p.add(i * sz), ty[2]) for i in range(ty[1]))
        o, size = p.o, self.m.size(ty)
        if o is NULL:
            self.oblig('null-deref', st.g, FALSE, 'load')
            raise Unsupported('null load')
        if STREAM.match(o.name):
            # inlined pieces of std::endl and friends
            self.assumed.add('std stream output')
            return Ptr(o, 0) if ty[0] == 'p' else (bv(0, ty[1]) if ty[0] == 'i' else t.fc(0.0))
        if o.log:
            return self.log_load(st, o, p.off, size, ty)
        self.bounds(st, o, p.off, size, 'load')
        if p.off.c:
            return self.cell_load(st, o, t.sgn(p.off.d, 64), size, ty)
        # symbolic offset into a small object
        cands = self.candidates(o, p.off, size)
        r = None
        for off in reversed(cands):
            x = self.cell_load(st, o, off, size, ty)
            r = x if r is None else vite(t.eq(p.off, bv(off, 64)), x, r)
        return r

    def candidates(self, o, off, size):
        if o.size is None or o.size > 8192:
            raise Unsupported('symbolic offset into %s' % o.name)
        step, base = size, 0
        if off.op == 'lin':
            import math
            g = 0
            for k in off.d[1]:
                g = math.gcd(g, t.sgn(k, 64) if t.sgn(k, 64) > 0 else -t.sgn(k, 64))
            step = max(g, 1)
            base = t.sgn(off.d[0], 64) % step
        elif off.op == 'ite':
            # set of constants
            vals = set()
            stck = [off]
            ok = True
            while stck:
                x = stck.pop()
                if x.op == 'ite':
                    stck += [x.a[1], x.a[2]]
                elif x.c:
                    vals.add(x.d)
                else:
                    ok = False
            if ok:
                return sorted(v for v in vals if v + size <= o.size)
        um = min(t.umax(off), o.size - size)
        return [c for c in range(base, um + 1, step)]

    def bounds(self, st, o, off, size, what):
        if o.size is None:
            return
        if off.c:
            d = t.sgn(off.d, 64)
            if d < 0 or d + size > o.size:
                self.oblig('bounds', st.g, FALSE, '%s of %d bytes at %s+%d (size %d)' % (what, size, o.name, d, o.size))
            return
        if t.umax(off) + size <= o.size:
            return
        if o.size >= size:
            self.oblig('bounds', st.g, t.ule(off, bv(o.size - size, 64)), '%s in %s' % (what, o.name))
        else:
            self.oblig('bounds', st.g, FALSE, '%s in %s' % (what, o.name))

    def oblig(self, kind, g, cond, what):
        self.obligs.append(Oblig(kind, g, cond, what))

    def cell_load(self, st, o, off, size, ty):
        cells = st.os(o).cells
        c = cells.get(off)
        if c is not None and c[0] == size:
            if self.trace_reads is not None:
                self.trace_reads.append((o, off))
            return self.retype(c[1], ty)
        ov = self.overlap(cells, off, size)
        if not ov:
            if self.trace_reads is not None:
                self.trace_reads.append((o, off))
            return self.default(o, off, size, ty)
        if c is not None and c[0] > size or (len(ov) == 1 and ov[0] <= off and ov[0] + cells[ov[0]][0] >= off + size):
            b = ov[0]
            return self.extract(cells[b][1], off - b, ty)
        # compose
        acc = bv(0, size * 8)
        pos = off
        while pos < off + size:
            if pos in cells and pos + cells[pos][0] <= off + size:
                n, v = cells[pos]
                v = self.asint(v, n * 8)
            else:
                ovb = self.overlap(cells, pos, 1)
                if ovb:
                    b = ovb[0]
                    v = self.extract(cells[b][1], pos - b, ('i', 8))
                    n = 1
                else:
                    v = self.default(o, pos, 1, ('i', 8))
                    n = 1
            acc = t.bvor(acc, t.shl(t.zext(v, size * 8), bv((pos - off) * 8, size * 8)))
            pos += n
        return self.retype(acc, ty)

    def store(self, st, p, v, ty):
        if isinstance(p, PSet):
            for g, q in p.alts:
                if isinstance(q, Ptr) and q.o is NULL:
                    self.oblig('null-deref', and_(st.g, g), FALSE, 'store')
                    continue
                old = self.load_or_undef(st, q, ty)
                self.store(st, q, vite(g, v, old) if old is not UNDEF else v, ty)
            return
        if not isinstance(p, Ptr):
            raise Unsupported('store through %r' % (p,))
        ty = self.m.resolve(ty)
        if ty[0] == 'l':
            for i in range(len(ty[1])):
                self.store(st, p.add(self.m.field_off(ty, i)[0]), v[i] if v is not UNDEF else UNDEF, ty[1][i])
            return
        if ty[0] in ('a', 'vec'):
            sz = self.m.size(ty[2])
            for i in range(ty[1]):
                self.store(st, p.add(i * sz), v[i] if v is not UNDEF else UNDEF, ty[2])
            return
        size = self.m.size(ty)
        o = p.o
        if o is NULL:
            self.oblig('null-deref', st.g, FALSE, 'store')
            raise Unsupported('null store')
        if isinstance(v, t.T) and v.s == 'b':
            v = t.zext(v, 8)
        if self.trace_writes is not None:
            self.trace_writes.append((o, p.off, size))
        if o.log:
            st.osw(o).log.append(W(st.g, p.off, size, v))
            return
        self.bounds(st, o, p.off, size, 'store')
        if p.off.c:
            self.cell_store(st, o, t.sgn(p.off.d, 64), size, v)
            return
        for off in self.candidates(o, p.off, size):
            old = self.cell_load(st, o, off, size, ty)
            self.cell_store(st, o, off, size, vite(t.eq(p.off, bv(off, 64)), v, old))

    def load_or_undef(self, st, p, ty):
        try:
            return self.load(st, p, ty)
        except Unsupported:
            return UNDEF

    def cell_store(self, st, o, off, size, v):
        os = st.osw(o)
        cells = os.cells
        for b in self.overlap(cells, off, size):
            n, old = cells[b]
            if b >= off and b + n <= off + size:
                del cells[b]
            else:
                # split the old cell into bytes outside the new one
                del cells[b]
                for i in range(n):
                    if not off <= b + i < off + size:
                        cells[b + i] = (1, self.extract(old, i, ('i', 8)))
        cells[off] = (size, v)

    def log_load(self, st, o, off, size, ty):
        log = st.os(o).log
        r = []          # (cond, value)
        for w in reversed(log):
            if w.k is None:
                if w.off is off and w.size == size:
                    if w.g is TRUE or w.g is st.g or implied(st.g, w.g):
                        return self._chain(r, self.retype(w.val, ty))
                    r.append((w.g, self.retype(w.val, ty)))
                    continue
                d = t.sub(off, w.off)
                if d.c:
                    dd = t.sgn(d.d, 64)
                    if dd >= w.size or -dd >= size:
                        continue
                    raise Unsupported('partial overlap in %s' % o.name)
                if disjoint_lin(d, size, w.size, o.elem):
                    continue
                if w.size == size:
                    r.append((and_(w.g, t.eq(off, w.off)), self.retype(w.val, ty)))
                    continue
                raise Unsupported('symbolic overlap in %s: %r vs %r' % (o.name, off, w.off))
            else:
                # map write: solve w.off[k] == off
                sol = solve_affine(w.off, w.k, off, size, w.size)
                if sol == 'disjoint':
                    continue
                if sol is None:
                    raise Unsupported('map read in %s: %r vs %r' % (o.name, off, w.off))
                cond = and_(t.subst(w.g, {w.k: sol}), t.ult(sol, w.n))
                cond = simplify_under(cond, st.g)
                val = self.retype(subst_val(w.val, {w.k: sol}), ty)
                if implied(st.g, cond) or cond is TRUE:
                    return self._chain(r, val)
                if in_range(sol, w.n):
                    return self._chain(r, val)
                r.append((cond, val))
        if self.trace_reads is not None:
            self.trace_reads.append((o, off))
        return self._chain(r, self.log_default(o, off, size, ty))

    def _chain(self, r, v):
        for c, x in reversed(r):
            v = vite(c, x, v)
        return v

    def log_default(self, o, off, size, ty):
        if o.kind == 'undef':
            if ty[0] == 'p':
                return UNDEF
            return fresh('undef:' + o.name, sort_of(ty))
        if o.kind == 'zero':
            return self.zero(ty)
        idx, c = split_index(off, o.elem)
        if idx is None:
            raise Unsupported('index into %s: %r' % (o.name, off))
        if ty[0] == 'p':
            if c in o.ptrs:
                return o.ptrs[c](idx)
            raise Unsupported('pointer element %s+%d' % (o.name, c))
        ft = (o.fields or {}).get(c)
        s = sort_of(ty)
        if ft is not None and ft != ty:
            return self.retype(t.uf('%s%d' % (o.ufp or o.name + '[]+', c), (idx,), sort_of(ft)), ty)
        return t.uf('%s%d' % (o.ufp or o.name + '[]+', c), (idx,), s)

    # ---------------------------------------------------------------- memory intrinsics
    def memcpy(self, st, d, s, n):
        if isinstance(d, PSet) or isinstance(s, PSet):
            if n.c and n.d == 0:
                return
            if isinstance(s, PSet) and not isinstance(d, PSet):
                # guarded copy: build merged memory
                base = None
                for g, q in s.alts:
                    st2 = State(st.env, st.g, dict(st.mem))
                    self.memcpy(st2, d, q, n)
                    if base is None:
                        base = st2
                    else:
                        base.mem[d.o] = self.merge_os(d.o, base, not_(g), st2, g)
                        base.own = set()
                st.mem, st.own = base.mem, set()
                return
            if isinstance(d, PSet) and not n.c:
                for g, q in d.alts:
                    if q.o is NULL:
                        self.oblig('null-deref', and_(st.g, g), t.eq(n, bv(0, 64)), 'memcpy')
                        continue
                    g0, st.g = st.g, and_(st.g, g)
                    try:
                        self.memcpy(st, q, s, n)
                    finally:
                        st.g = g0
                return
            raise Unsupported('memcpy through guarded pointers')
        if isinstance(s, Fn) or isinstance(d, Fn):
            raise Unsupported('memcpy fn')
        if not n.c:
            # whole-array copy of symbolic length between log objects
            if d.o.log and s.o.log and s.o.elem:
                k = fresh('k', 64, KMAX)
                el = s.o.elem
                cnt = t.udiv(n, bv(el, 64))
                for fo, ft in sorted((s.o.fields or {0: ('i', 64)}).items()):
                    sz = self.m.size(ft)
                    so = t.add(s.off, t.add(t.mul(bv(el, 64), k), bv(fo, 64)))
                    do = t.add(d.off, t.add(t.mul(bv(el, 64), k), bv(fo, 64)))
                    v = self.log_load(st, s.o, so, sz, ft)
                    st.osw(d.o).log.append(W(st.g, do, sz, v, k, cnt))
                if d.o.elem is None:
                    d.o.elem, d.o.fields, d.o.ptrs = el, s.o.fields, s.o.ptrs
                return
            raise Unsupported('memcpy of symbolic length')
        n = n.d
        if n == 0:
            return
        # element by element, using the shape of whatever is known
        shape = self.shape(st, s, n) or self.shape(st, d, n)
        if shape is None:
            shape = [(i, ('i', 64)) for i in range(0, n - n % 8, 8)] + [(i, ('i', 8)) for i in range(n - n % 8, n)]
        vals = []
        for off, ty in shape:
            vals.append((off, ty, self.load(st, s.add(off), ty)))
        for off, ty, v in vals:
            self.store(st, d.add(off), v, ty)

    def shape(self, st, p, n):
        o = p.o
        if o.log:
            if o.fields is None or o.elem is None:
                return None
            idx, c = split_index(p.off, o.elem)
            if idx is None:
                return None
            out = []
            for fo, ft in sorted(o.fields.items()):
                if c <= fo < c + n:
                    out.append((fo - c, ft))
            if n > o.elem:
                out = []
                for r in range(0, n, o.elem):
                    for fo, ft in sorted(o.fields.items()):
                        out.append((r + fo - c, ft))
            return out
        if not p.off.c:
            return None
        base = t.sgn(p.off.d, 64)
        cells = st.os(o).cells
        cov = {}
        for fo, ft in (o.fields or {}).items():
            if base <= fo and fo + self.m.size(ft) <= base + n:
                cov[fo] = ft
        for co, (sz, v) in cells.items():
            if base <= co and co + sz <= base + n:
                for x in list(cov):
                    if x < co + sz and co < x + self.m.size(cov[x]):
                        del cov[x]
                if isinstance(v, (Ptr, PSet, Fn, Undef)) and sz == 8:
                    cov[co] = ir.PTR
                elif isinstance(v, t.T) and v.s == 'f':
                    cov[co] = ir.F64
                else:
                    cov[co] = ('i', sz * 8)
        for io, v in o.init.items():
            if base <= io < base + n and io not in cov and not any(
                    x <= io < x + self.m.size(y) for x, y in cov.items()):
                if isinstance(v, (Ptr, PSet, Fn)):
                    cov[io] = ir.PTR
                elif v.s == 'f':
                    cov[io] = ir.F64
                else:
                    cov[io] = ('i', v.s if v.s != 'b' else 8)
        if not cov:
            return None
        return [(x - base, y) for x, y in sorted(cov.items())]

    def memset(self, st, d, v, n):
        if not n.c:
            if v.c and v.d == 0 and isinstance(d, Ptr) and d.o.log and (not (d.o.elem or 8) & 7 or d.off.c and d.off.d == 0):
                k = fresh('k', 64, KMAX)
                el = d.o.elem or 8
                ft = d.o.fields or {0: ('i', 64)}
                for fo, f in sorted(ft.items()):
                    sz = self.m.size(f)
                    st.osw(d.o).log.append(W(st.g, t.add(d.off, t.add(t.mul(bv(el, 64), k), bv(fo, 64))), sz, self.zero(f), k,
                                             t.udiv(n, bv(el, 64))))
                return
            raise Unsupported('memset of symbolic length')
        if not v.c:
            raise Unsupported('memset value')
        n = n.d
        if n == 0:
            return
        shape = self.shape(st, d, n) if isinstance(d, Ptr) and not d.o.log else None
        i = 0
        done = 0
        while done < n:
            w = 8 if n - done >= 8 else (4 if n - done >= 4 else 1)
            self.store(st, d.add(done), bv(int.from_bytes(bytes([v.d]) * w, 'little'), w * 8), ('i', w * 8))
            done += w

    # ---------------------------------------------------------------- scalar ops
    def gep(self, st, bt, base, idx):
        if base is UNDEF:
            return UNDEF
        if isinstance(base, PSet):
            return PSet([(g, self.gep(st, bt, q, idx)) for g, q in base.alts])
        if isinstance(base, t.T):
            raise Unsupported('gep on integer')
        if isinstance(base, Fn):
            raise Unsupported('gep on function')
        off = base.off
        ty = bt
        for j, (it, iv) in enumerate(idx):
            x = self.const(st, it, iv)
            if x is UNDEF:
                raise Unsupported('undef index')
            x = t.sext(x, 64) if x.s != 64 else x
            if j == 0:
                off = t.add(off, t.mul(bv(self.m.size(ty), 64), x))
            else:
                r = self.m.resolve(ty)
                if r[0] in ('a', 'vec'):
                    ty = r[2]
                    off = t.add(off, t.mul(bv(self.m.size(ty), 64), x))
                else:
                    if not x.c:
                        raise Unsupported('symbolic field')
                    o, ty = self.m.field_off(r, x.d)
                    off = t.add(off, bv(o, 64))
        return Ptr(base.o, off)

    def binop(self, o, x, y, ty, st):
        if ty[0] == 'vec' or isinstance(x, tuple):
            return tuple(self.binop(o, a, b, ty[2], st) for a, b in zip(x, y))
        if x is UNDEF or y is UNDEF:
            x = fresh('undef', sort_of(ty)) if x is UNDEF else x
            y = fresh('undef', sort_of(ty)) if y is UNDEF else y
        if o == 'fadd':
            return t.fadd(x, y)
        if o == 'fsub':
            return t.fsub(x, y)
        if o == 'fmul':
            return t.fmul(x, y)
        if o == 'fdiv':
            return t.fdiv(x, y)
        if o == 'frem':
            return t.fn('fmod', x, y)
        if isinstance(x, (Ptr, PSet)) or isinstance(y, (Ptr, PSet)):
            raise Unsupported('arith on pointer')
        if x.s == 'b':
            if o == 'and':
                return and_(x, y)
            if o == 'or':
                return or_(x, y)
            if o in ('xor', 'add', 'sub'):
                return not_(t.eq(x, y))
            if o == 'mul':
                return and_(x, y)
            raise Unsupported('i1 ' + o)
        if o in ('udiv', 'sdiv', 'urem', 'srem') and not (y.c and y.d):
            self.oblig('div0', st.g, not_(t.eq(y, bv(0, y.s))), o)
        return {'add': t.add, 'sub': t.sub, 'mul': t.mul, 'and': t.bvand, 'or': t.bvor, 'xor': t.bvxor,
                'shl': t.shl, 'lshr': t.lshr, 'ashr': t.ashr, 'udiv': t.udiv, 'urem': t.urem, 'sdiv': t.sdiv,
                'srem': t.srem}[o](x, y)

    def cast(self, o, x, f, ty):
        if x is UNDEF:
            return UNDEF if ty[0] == 'p' else fresh('undef', sort_of(ty))
        if isinstance(x, tuple):
            return tuple(self.cast(o, a, f[2], ty[2]) for a in x)
        if o == 'ptrtoint':
            r = self.ptrint(x)
            return r if ty[1] == 64 else t.trunc(r, ty[1])
        if o == 'inttoptr':
            return self.int2ptr(x)
        if o == 'trunc':
            if ty[1] == 1:
                return not_(t.eq(t.bvand(x, bv(1, x.s)), bv(0, x.s)))
            return t.trunc(x, ty[1])
        if o == 'zext':
            return t.zext(x, ty[1])
        if o == 'sext':
            return t.sext(x, ty[1])
        if o == 'uitofp':
            r = t.uitofp(x)
            return t.fn('f32', r) if ty[1] == 32 else r
        if o == 'sitofp':
            r = ite(x, fc(-1.0), fc(0.0)) if x.s == 'b' else t.sitofp(x)
            return t.fn('f32', r) if ty[1] == 32 else r
        if o == 'fptoui':
            return t.fptoui(x, ty[1])
        if o == 'fptosi':
            return t.fptosi(x, ty[1])
        if o == 'fpext':
            return x
        if o == 'fptrunc':
            return t.fn('f32', x)
        if o == 'bitcast':
            if f == ty:
                return x
            return self.retype(x, ty)
        raise Unsupported('cast ' + o)

    def int2ptr(self, x):
        if x.c and x.d == 0:
            return NULLP
        if x.c and x.d < 4096:
            return Ptr(INTP, x.d)            # MPI_IN_PLACE and the like
        if x.op == 'lin':
            for a, k in zip(x.a, x.d[1]):
                if a.op == 'sym' and a.d.name.startswith('&') and k == 1:
                    for o in self.all_objs:
                        if o.addr is a:
                            return Ptr(o, t.sub(x, a))
        raise Unsupported('inttoptr %r' % (x,))

    all_objs = []

    def icmp(self, p, x, y):
        if isinstance(x, (Ptr, PSet, Fn)) or isinstance(y, (Ptr, PSet, Fn)) or x is UNDEF or y is UNDEF:
            return self.pcmp(p, x, y)
        if isinstance(x, tuple):
            raise Unsupported('vector icmp')
        if x.s == 'b':
            e = t.eq(x, y)
            if p == 'eq':
                return e
            if p == 'ne':
                return not_(e)
            x, y = t.zext(x, 8), t.zext(y, 8)
        return {'eq': lambda: t.eq(x, y), 'ne': lambda: not_(t.eq(x, y)), 'ult': lambda: t.ult(x, y),
                'ule': lambda: t.ule(x, y), 'ugt': lambda: t.ult(y, x), 'uge': lambda: t.ule(y, x),
                'slt': lambda: t.slt(x, y), 'sle': lambda: t.sle(x, y), 'sgt': lambda: t.slt(y, x),
                'sge': lambda: t.sle(y, x)}[p]()

    def pcmp(self, p, x, y):
        if x is UNDEF or y is UNDEF:
            return fresh('undef', 'b')
        r = FALSE
        for g, a in palts(x):
            for h, b in palts(y):
                gg = and_(g, h)
                if gg is FALSE:
                    continue
                if isinstance(a, Fn) or isinstance(b, Fn):
                    e = B(same(a, b))
                elif a.o is b.o:
                    e = t.eq(a.off, b.off)
                else:
                    e = FALSE
                if p in ('eq', 'ne'):
                    r = or_(r, and_(gg, e))
                else:
                    if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.o is b.o):
                        raise Unsupported('pointer order between objects')
                    f = {'ult': t.slt, 'ugt': lambda u, v: t.slt(v, u), 'ule': t.sle,
                         'uge': lambda u, v: t.sle(v, u), 'slt': t.slt, 'sgt': lambda u, v: t.slt(v, u)}[p]
                    r = or_(r, and_(gg, f(a.off, b.off)))
        return not_(r) if p == 'ne' else r

    def fcmp(self, p, x, y):
        x = fresh('undef', 'f') if x is UNDEF else x
        y = fresh('undef', 'f') if y is UNDEF else y
        uno = or_(t.isnan(x), t.isnan(y))
        o = {'oeq': lambda: t.feq(x, y), 'one': lambda: and_(not_(t.feq(x, y)), not_(uno)),
             'olt': lambda: t.flt(x, y), 'ogt': lambda: t.flt(y, x), 'ole': lambda: t.fle(x, y),
             'oge': lambda: t.fle(y, x), 'ord': lambda: not_(uno), 'uno': lambda: uno,
             'ueq': lambda: or_(uno, t.feq(x, y)), 'une': lambda: not_(t.feq(x, y)),
             'ult': lambda: not_(t.fle(y, x)), 'ugt': lambda: not_(t.fle(x, y)),
             'ule': lambda: not_(t.flt(y, x)), 'uge': lambda: not_(t.flt(x, y)),
             'true': lambda: TRUE, 'false': lambda: FALSE}
        return o[p]()

    # ---------------------------------------------------------------- states
    def merge_os(self, o, s1, g1, s2, g2):
        a, b = s1.mem.get(o), s2.mem.get(o)
        if a is b:
            return a
        a = a or OS(log=[] if o.log else None)
        b = b or OS(log=[] if o.log else None)
        if o.log:
            i = 0
            while i < len(a.log) and i < len(b.log) and a.log[i] is b.log[i]:
                i += 1
            log = a.log[:i]
            for w in a.log[i:]:
                log.append(W(and_(w.g, g1), w.off, w.size, w.val, w.k, w.n))
            for w in b.log[i:]:
                log.append(W(and_(w.g, g2), w.off, w.size, w.val, w.k, w.n))
            return OS({}, log)
        r = {}
        keys = set(a.cells) | set(b.cells)
        # split mismatching cells
        for k in sorted(keys):
            ca, cb = a.cells.get(k), b.cells.get(k)
            if ca is not None and cb is not None and ca[0] == cb[0]:
                if same(ca[1], cb[1]):
                    r[k] = ca
                else:
                    r[k] = (ca[0], self.mergeval(g2, cb[1], ca[1]))
            elif ca is not None and cb is None and not self.overlap(b.cells, k, ca[0]):
                v = self.merge_default(o, k, ca)
                r[k] = (ca[0], self.mergeval(g1, ca[1], v))
            elif cb is not None and ca is None and not self.overlap(a.cells, k, cb[0]):
                v = self.merge_default(o, k, cb)
                r[k] = (cb[0], self.mergeval(g2, cb[1], v))
            else:
                # different granularity: bytes
                for (sz, base) in ((c[0], k) for c in (ca, cb) if c is not None):
                    for i in range(sz):
                        off = k + i
                        if any(q <= off < q + r[q][0] for q in r if q <= off and off - q < 16):
                            continue
                        st1 = State({}, TRUE, {o: a})
                        st2 = State({}, TRUE, {o: b})
                        va = self.cell_load(st1, o, off, 1, ('i', 8))
                        vb = self.cell_load(st2, o, off, 1, ('i', 8))
                        r[off] = (1, vite(g2, vb, va))
        return OS(r, None)

    def mergeval(self, g, x, y):
        if (isinstance(x, (Ptr, PSet, Fn)) and isinstance(y, t.T) and not y.c) or \
                (isinstance(y, (Ptr, PSet, Fn)) and isinstance(x, t.T) and not x.c):
            # a stack slot reused with a different type: the value is dead at the join
            return UNDEF
        if isinstance(x, t.T) and isinstance(y, t.T) and x.s != y.s and {x.s, y.s} == {'f', 64}:
            x = x if x.s == 'f' else t.b2f(x)
            y = y if y.s == 'f' else t.b2f(y)
        return vite(g, x, y)

    def merge_default(self, o, k, c):
        if o.kind == 'undef':
            return UNDEF
        v = c[1]
        if isinstance(v, (Ptr, PSet, Fn, Undef)):
            return self.default(o, k, 8, ir.PTR)
        ty = ir.F64 if v.s == 'f' else ('i', c[0] * 8)
        return self.default(o, k, c[0], ty)

    def merge(self, s1, s2):
        g = or_(s1.g, s2.g)
        g2 = s2.g
        g1 = s1.g
        # condition that selects s2 given that one of both holds
        sel = relative(g2, g1)
        nsel = not_(sel)
        env = s1.env if s1.env is s2.env else None
        if env is None:
            env = {}
            for k, v in s1.env.items():
                if k in s2.env:
                    w = s2.env[k]
                    if v is w:
                        env[k] = v
                    else:
                        try:
                            env[k] = vite(sel, w, v)
                        except Unsupported:
                            pass       # dead here; a use would fail
                else:
                    env[k] = v
            for k, v in s2.env.items():
                if k not in env and k not in s1.env:
                    env[k] = v
        mem = {}
        for o in set(s1.mem) | set(s2.mem):
            mem[o] = self.merge_os(o, s1, nsel, s2, sel)
            if mem[o] is None:
                del mem[o]
        return State(env, g, mem)

    # ---------------------------------------------------------------- functions
    def call(self, st, name, args):
        """run function `name` to completion; returns (state, value)"""
        f = self.m.fn(name)
        if f is None:
            raise Unsupported('no body for ' + name)
        if self.depth > 60:
            raise Unsupported('call depth')
        self.functions.add(f.name)
        f.blocks
        self.depth += 1
        try:
            env = {}
            for (ty, pn, at), a in zip(f.params, args):
                env[pn] = a
            caller_env = st.env
            s0 = State(env, st.g, st.mem)
            s0.own = set()
            exits, rets = self.region(f, f.entry, s0, None)
            if not rets:
                return None, None
            cur, val = rets[0]
            for s, v in rets[1:]:
                sel = relative(s.g, cur.g)
                val = vite(sel, v, val) if v is not None else None
                # keep env out of the merge
                cur.env = s.env = {}
                cur = self.merge(cur, s)
            out = State(caller_env, cur.g, cur.mem)
            return out, val
        finally:
            self.depth -= 1

    def getwto(self, f):
        r = self.wto_cache.get(f.name)
        if r is None:
            r = wto(f)
            self.wto_cache[f.name] = r
        return r

    def region(self, f, start, st, within, entered=True):
        """execute from `start`; blocks limited to `within` (None: all).
        returns (exits: {(block, from): state}, rets)"""
        pos, loops = self.getwto(f)
        pending = {start: [st]}
        exits, rets = [], []
        visits = {}
        first = True
        while pending:
            b = min(pending, key=lambda x: pos[x])
            sts = pending.pop(b)
            cur = sts[0]
            for s in sts[1:]:
                cur = self.merge(cur, s)
            if cur.g is FALSE:
                continue
            is_start = first and b == start
            first = False
            if b in loops and not (is_start and within is not None):
                visits[b] = visits.get(b, 0) + 1
                n = visits[b]
                if n == 1 or cur.env.get(('entered', b)) is not True:
                    if loops[b] is None:
                        raise Unsupported('irreducible loop in ' + f.name)
                    r = self.try_summary(f, b, loops[b], cur)
                    if r is not None:
                        for tgt, s in r:
                            if within is not None and (tgt not in within or tgt == start):
                                exits.append((tgt, s))
                            else:
                                pending.setdefault(tgt, []).append(s)
                        continue
                    self.loops_unr += 1
                    visits[b] = 1
                    cur.env = dict(cur.env)
                    cur.env[('entered', b)] = True
                elif n > self.max_unroll:
                    if self.solver and not self.solver.feasible(cur.g):
                        continue
                    if self.solver is None or n > self.max_unroll + 2:
                        raise Unsupported('loop not bounded in %s %s (%s)' % (f.name, b, [x for x in self.sumfail if b in x][:2]))
                elif n > 4 and cur.g is not TRUE and self.solver is not None and cur.env.get(('sg', b)) is not cur.g:
                    if not self.solver.feasible(cur.g):
                        continue
                    cur.env = dict(cur.env)
                    cur.env[('sg', b)] = cur.g
            for tgt, s in self.block(f, f.blocks[b], cur, rets):
                if s.g is FALSE:
                    continue
                # leaving a loop clears its entered mark (handled by fresh env keys)
                for h, body in loops.items():
                    if body is not None and tgt not in body and ('entered', h) in s.env:
                        s.env = dict(s.env)
                        del s.env[('entered', h)]
                        s.env.pop(('sg', h), None)
                        if h in visits and not any(q in body for q in pending):
                            pass
                if within is not None and (tgt not in within or tgt == start):
                    exits.append((tgt, s))
                else:
                    pending.setdefault(tgt, []).append(s)
        return exits, rets

    def block(self, f, blk, st, rets):
        """execute one block; returns [(target, state)] with phis evaluated"""
        st.env = dict(st.env)
        env = st.env
        i = 0
        ins_list = blk.ins
        while i < len(ins_list) and ins_list[i].op == 'phi':
            i += 1          # evaluated on the edge
        for ins in ins_list[i:]:
            op = ins.op
            a = ins.a
            if op == 'bin':
                env[ins.res] = self.binop(a['o'], self.const(st, ins.ty, a['x']), self.const(st, ins.ty, a['y']),
                                          ins.ty, st)
            elif op == 'load':
                env[ins.res] = self.load(st, self.const(st, ir.PTR, a['p']), ins.ty)
            elif op == 'store':
                self.store(st, self.const(st, ir.PTR, a['p']), self.const(st, ins.ty, a['v']), ins.ty)
            elif op == 'gep':
                env[ins.res] = self.gep(st, a['bt'], self.const(st, ir.PTR, a['ops'][0][1]), a['ops'][1:])
            elif op == 'icmp':
                env[ins.res] = self.icmp(a['p'], self.const(st, a['t'], a['x']), self.const(st, a['t'], a['y']))
            elif op == 'fcmp':
                env[ins.res] = self.fcmp(a['p'], self.const(st, a['t'], a['x']), self.const(st, a['t'], a['y']))
            elif op == 'select':
                c = self.const(st, ir.I1, a['c'])
                x, y = self.const(st, ins.ty, a['x']), self.const(st, ins.ty, a['y'])
                env[ins.res] = vite(c, x, y)
            elif op == 'cast':
                env[ins.res] = self.cast(a['o'], self.const(st, a['from'], a['x']), a['from'], ins.ty)
            elif op == 'fneg':
                x = self.const(st, ins.ty, a['x'])
                env[ins.res] = t.fneg(x)
            elif op == 'alloca':
                env[ins.res] = self.alloca(st, ins, a)
            elif op in ('call', 'invoke'):
                r = self.do_call(st, ins)
                if r is None:
                    return []          # does not return
                st2, v = r
                if st2 is not st:
                    e = env
                    st = st2
                    st.env = e
                if ins.res is not None:
                    env[ins.res] = v
                if op == 'invoke':
                    return [(a['normal'], self.edge(f, blk.name, a['normal'], st))]
            elif op == 'br':
                if 'dst' in a:
                    return [(a['dst'], self.edge(f, blk.name, a['dst'], st))]
                c = self.const(st, ir.I1, a['c'])
                if c is UNDEF:
                    raise Unsupported('branch on undef')
                c = simplify_under(c, st.g)
                out = []
                gt, gf = and_(st.g, c), and_(st.g, not_(c))
                if a['t'] == a['f']:
                    return [(a['t'], self.edge(f, blk.name, a['t'], st))]
                if gt is not FALSE:
                    out.append((a['t'], self.edge(f, blk.name, a['t'], st.fork(gt))))
                if gf is not FALSE:
                    out.append((a['f'], self.edge(f, blk.name, a['f'], st.fork(gf))))
                return out
            elif op == 'switch':
                v = self.const(st, ins.ty, a['v'])
                out, rest = {}, TRUE
                for c, d in a['cases']:
                    e = t.eq(v, self.const(st, ins.ty, c))
                    out[d] = or_(out.get(d, FALSE), and_(rest, e))
                    rest = and_(rest, not_(e))
                out[a['default']] = or_(out.get(a['default'], FALSE), rest)
                res = []
                for d, c in out.items():
                    g = and_(st.g, c)
                    if g is not FALSE:
                        res.append((d, self.edge(f, blk.name, d, st.fork(g))))
                return res
            elif op == 'ret':
                v = None if a['v'] is None else self.const(st, ins.ty, a['v'])
                rets.append((st, v))
                return []
            elif op == 'unreachable':
                return []
            elif op == 'extractvalue':
                v = self.const(st, ins.ty, a['x'])
                for j in a['ix']:
                    v = v[j]
                env[ins.res] = v
            elif op == 'insertvalue':
                v = self.const(st, ins.ty, a['x'])
                w = self.const(st, None, a['y'])
                env[ins.res] = self.insertv(v, w, a['ix'], ins.ty)
            elif op == 'freeze':
                env[ins.res] = self.const(st, ins.ty, a['x'])
            elif op == 'landingpad':
                return []
            else:
                raise Unsupported('%s: %s' % (op, ins.line.strip()[:120]))
        raise Unsupported('block without terminator')

    def insertv(self, v, w, ix, ty):
        if v is UNDEF:
            r = self.m.resolve(ty)
            n = len(r[1]) if r[0] == 'l' else r[1]
            v = tuple(UNDEF for _ in range(n))
        l = list(v)
        if len(ix) == 1:
            l[ix[0]] = w
        else:
            r = self.m.resolve(ty)
            l[ix[0]] = self.insertv(l[ix[0]], w, ix[1:], r[1][ix[0]] if r[0] == 'l' else r[2])
        return tuple(l)

    def edge(self, f, src, dst, st):
        """evaluate the phis of dst for the edge src->dst"""
        blk = f.blocks[dst]
        new = None
        for ins in blk.ins:
            if ins.op != 'phi':
                break
            for v, b in ins.a['in']:
                if b == src:
                    if new is None:
                        new = {}
                    new[ins.res] = self.const(st, ins.ty, v)
                    break
            else:
                raise Unsupported('phi edge')
        st.env = dict(st.env)
        if new:
            st.env.update(new)
        return st

    def alloca(self, st, ins, a):
        n = self.const(st, a['nt'], a['n'])
        sz = self.m.size(ins.ty)
        nm = 'stk:%s' % ins.res
        if n.c:
            o = Obj(nm, sz * n.d, 'undef')
        else:
            o = Obj(nm, None, 'undef', elem=sz, log=True)
            try:
                o.fields = dict(self.m.flatten(ins.ty))
            except ir.IRError:
                pass
            o.sizet = t.mul(bv(sz, 64), t.zext(n, 64))
        self.all_objs.append(o)
        return Ptr(o, 0)

    # ---------------------------------------------------------------- calls
    def do_call(self, st, ins):
        a = ins.a
        fnv = self.const(st, ir.PTR, a['fn'])
        args = []
        for ty, v, at in a['args']:
            x = self.const(st, ty, v)
            if 'byval' in at:
                n = self.m.size(at['byval'])
                o = Obj('byval', n, 'undef')
                self.memcpy(st, Ptr(o, 0), x, bv(n, 64))
                x = Ptr(o, 0)
            args.append(x)
        if isinstance(fnv, PSet):
            outs = []
            for g, q in fnv.alts:
                s = st.fork(and_(st.g, g))
                if s.g is FALSE:
                    continue
                r = self.call_target(s, q, args, ins)
                if r is not None:
                    outs.append(r)
            if not outs:
                return None
            cur, val = outs[0]
            for s, v in outs[1:]:
                sel = relative(s.g, cur.g)
                val = vite(sel, v, val) if v is not None else None
                cur = self.merge(cur, s)
            return cur, val
        return self.call_target(st, fnv, args, ins)

    def call_target(self, st, fnv, args, ins):
        if isinstance(fnv, Ptr) and STREAM.match(fnv.o.name):
            self.assumed.add('std stream output')
            return st, self.opaque_value(ins, args)
        if not isinstance(fnv, Fn):
            raise Unsupported('call through %r' % (fnv,))
        name = fnv.name
        h = self.contracts.get(name)
        if h is None:
            for rx, hh in self.contracts.items():
                if hasattr(rx, 'search') and rx.search(name):
                    h = hh
                    break
        if h is not None:
            r = h(self, st, args, ins)
            if r is NORETURN:
                self.aborts.append((st.g, name))
                return None
            return st, r
        if name[1:].startswith('llvm.'):
            return self.intrinsic(st, name[1:], args, ins)
        r = self.builtin(st, name[1:], args, ins)
        if r is NORETURN:
            return None
        if r is not NOTHERE:
            return st, r
        f = self.m.fn(name)
        if f is not None and not any(rx.search(name[1:]) for rx in self.opaque_rx):
            return_st, v = self.call(st, name, args)
            if return_st is None:
                return None
            return return_st, v
        if any(rx.search(name[1:]) for rx in self.opaque_rx):
            self.assumed.add(name)
            return st, self.opaque_value(ins, args)
        raise Unsupported('external function ' + name)

    def opaque_value(self, ins, args):
        if ins.ty == ir.VOID:
            return None
        if ins.ty == ir.PTR:
            for a in args:
                if isinstance(a, Ptr):
                    return a
            return NULLP
        return fresh('opaque', sort_of(ins.ty))

    LIBM = {'sqrt': 'sqrt', 'fabs': 'fabs', 'exp': 'exp', 'log': 'log', 'sin': 'sin', 'cos': 'cos', 'tan': 'tan',
            'floor': 'floor', 'ceil': 'ceil', 'pow': 'pow', 'atan2': 'atan2', 'acos': 'acos', 'asin': 'asin',
            'fmod': 'fmod', 'round': 'round', 'atan': 'atan', 'tanh': 'tanh', 'cbrt': 'cbrt', 'log10': 'log10',
            'trunc': 'trunc', 'exp2': 'exp2', 'sinh': 'sinh', 'cosh': 'cosh', 'hypot': 'hypot', 'fmin': 'fmin',
            'fmax': 'fmax', 'copysign': 'copysign', 'rint': 'rint', 'nearbyint': 'rint', 'minnum': 'fmin', 'maxnum': 'fmax', 'log2': 'log2',
            'asinh': 'asinh', 'log1p': 'log1p', 'expm1': 'expm1'}

    def builtin(self, st, name, args, ins):
        if name in self.LIBM and ins.ty == ir.F64:
            return t.fn(self.LIBM[name], *args)
        if name.endswith('f') and name[:-1] in self.LIBM and ins.ty == ('f', 32):
            return t.fn('f32', t.fn(self.LIBM[name[:-1]], *args))
        if name in ('__assert_fail', '__assert_perror_fail'):
            self.asserts.append((st.g, self.cstr(st, args[0])))
            return NORETURN
        if name in ('abort', 'exit', '_exit', 'MPI_Abort', '_ZSt9terminatev', '__cxa_throw', '__cxa_pure_virtual',
                    '__cxa_rethrow') or name.startswith('_ZSt20__throw') or re.match(r'_ZSt\d+__throw', name):
            self.aborts.append((st.g, name))
            return NORETURN
        if name in ('_Znwm', '_Znam', 'malloc'):
            n = args[0]
            o = Obj('heap', n.d if n.c else None, 'undef', log=not n.c)
            o.fresh = True
            if not n.c:
                o.sizet = n
            self.all_objs.append(o)
            return Ptr(o, 0)
        if name in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free'):
            return None
        if name in ('memcpy', 'memmove'):
            self.memcpy(st, args[0], args[1], args[2])
            return args[0]
        if name == 'memset':
            self.memset(st, args[0], t.trunc(args[1], 8), args[2])
            return args[0]
        if name == '__cxa_guard_acquire':
            self.notes.add('static locals: executed as on the first call')
            return bv(1, 32)
        if name in ('__cxa_guard_release', '__cxa_atexit', '__cxa_guard_abort'):
            return bv(0, 32) if ins.ty != ir.VOID else None
        if name == 'strlen':
            s = self.cstr(st, args[0])
            if s is not None:
                return bv(len(s), 64)
        if name in ('strcmp', 'strncmp'):
            x, y = self.cstr(st, args[0]), self.cstr(st, args[1])
            if x is not None and y is not None and name == 'strcmp':
                return bv(0 if x == y else (1 if x > y else -1), 32)
        if name.startswith('_ZN5boost9algorithm7iequals') or name.startswith('_ZN5boost7iequals') or \
                (name.startswith('_ZN5boost9algorithm6equals') and 'is_iequal' in name):
            x, y = self.cstr2(st, args[0]), self.cstr2(st, args[1])
            if x is not None and y is not None:
                return B(x.lower() == y.lower())
        return NOTHERE

    def cstr2(self, st, p):
        s = self.cstr(st, p)
        if s is not None:
            return s
        try:
            q = self.load(st, p, ir.PTR)
            return self.cstr(st, q)
        except Unsupported:
            return None

    def cstr(self, st, p):
        if not isinstance(p, Ptr) or not p.off.c or p.o.log:
            return None
        out, off = bytearray(), p.off.d
        try:
            while True:
                c = self.cell_load(st, p.o, off, 1, ('i', 8))
                if not isinstance(c, t.T) or not c.c:
                    return None
                if c.d == 0:
                    return out.decode('latin1')
                out.append(c.d)
                off += 1
                if len(out) > 600:
                    return None
        except Unsupported:
            return None

    def intrinsic(self, st, name, args, ins):
        b = name.split('.')[1]
        if b in ('lifetime', 'dbg', 'assume', 'experimental', 'donothing', 'stackrestore', 'invariant', 'prefetch',
                 'sideeffect', 'var', 'annotation'):
            return st, None
        if b == 'stacksave':
            return st, NULLP
        if b in ('memcpy', 'memmove'):
            self.memcpy(st, args[0], args[1], args[2])
            return st, None
        if b == 'memset':
            self.memset(st, args[0], args[1], args[2])
            return st, None
        if b in self.LIBM and ins.ty == ir.F64:
            return st, t.fn(self.LIBM[b], *args)
        if b == 'fmuladd':
            return st, t.fadd(t.fmul(args[0], args[1]), args[2])
        if b == 'powi':
            if args[1].c:
                n = t.sgn(args[1].d, 32)
                r = fc(1.0)
                for _ in range(abs(n)):
                    r = t.fmul(r, args[0]) if not (r.c and r.d == 1.0) else args[0]
                return st, r if n >= 0 else t.fdiv(fc(1.0), r)
        if b in ('umin', 'umax', 'smin', 'smax'):
            x, y = args
            lt = t.ult(x, y) if b[0] == 'u' else t.slt(x, y)
            return st, ite(lt, x, y) if b.endswith('min') else ite(lt, y, x)
        if b == 'abs':
            x = args[0]
            return st, ite(t.slt(x, bv(0, x.s)), t.neg(x), x)
        if b in ('ctpop', 'ctlz', 'cttz'):
            x = args[0]
            w = x.s
            bits = [not_(t.eq(t.bvand(x, bv(1 << i, w)), bv(0, w))) for i in range(w)]
            if b == 'ctpop':
                r = bv(0, w)
                for c in bits:
                    r = t.add(r, t.zext(c, w))
                return st, r
            r = bv(w, w)
            if b == 'ctlz':
                for i, c in enumerate(bits):
                    r = ite(c, bv(w - 1 - i, w), r)
            else:
                for i in range(w - 1, -1, -1):
                    r = ite(bits[i], bv(i, w), r)
            return st, r
        if b == 'bswap' or b == 'bitreverse':
            raise Unsupported(name)
        if b in ('fshl', 'fshr'):
            x, y, z = args
            w = x.s
            if z.c:
                n = z.d % w
                if n == 0:
                    return st, x if b == 'fshl' else y
                if b == 'fshr':
                    n = w - n
                return st, t.bvor(t.shl(x, bv(n, w)), t.lshr(y, bv(w - n, w)))
        if b in ('umul', 'uadd', 'usub', 'smul', 'sadd', 'ssub') and 'with' in name:
            x, y = args
            w = x.s
            ex = t.zext if b[0] == 'u' else t.sext
            X, Y = ex(x, 2 * w), ex(y, 2 * w)
            f = {'mul': t.mul, 'add': t.add, 'sub': t.sub}[b[1:]]
            r = f(X, Y)
            lo = f(x, y)
            return st, (lo, not_(t.eq(ex(lo, 2 * w), r)))
        if b in ('usub', 'uadd') and '.sat' in name:
            x, y = args
            if b == 'usub':
                return st, ite(t.ult(x, y), bv(0, x.s), t.sub(x, y))
            r = t.add(x, y)
            return st, ite(t.ult(r, x), bv(-1, x.s), r)
        if b in ('trap', 'ubsantrap'):
            self.aborts.append((st.g, name))
            return None
        if b == 'is':
            # llvm.is.fpclass
            x, m = args
            if m.c and m.d == 3:
                return st, t.isnan(x)
        if b == 'objectsize':
            return st, bv(-1, 64)
        if b == 'expect':
            return st, args[0]
        raise Unsupported('intrinsic ' + name)

    # ---------------------------------------------------------------- loop summaries
    def try_summary(self, f, h, body, st):
        """returns [(target, state)] or None (then the loop is unrolled)"""
        if not self.summarize:
            return None
        # cheap test: does one concrete step decide the exit?
        snap = (len(self.obligs), len(self.asserts), len(self.aborts), len(self.calls))
        save_g = st.g
        saved = (self.trace_reads, self.trace_writes)
        try:
            return self._summary(f, h, body, st)
        except Unsupported as e:
            self.sumfail.append('%s %s: %s' % (f.name, h, e))
            del self.obligs[snap[0]:], self.asserts[snap[1]:], self.aborts[snap[2]:], self.calls[snap[3]:]
        finally:
            st.g = save_g
            self.trace_reads, self.trace_writes = saved
        for rx, inv in self.invs.items():
            if re.search(rx, f.name):
                try:
                    return self._invariant(f, h, body, st, inv)
                except Unsupported as e:
                    self.sumfail.append('%s %s: %s' % (f.name, h, e))
                    del self.obligs[snap[0]:], self.asserts[snap[1]:], self.aborts[snap[2]:], self.calls[snap[3]:]
                finally:
                    self.trace_reads, self.trace_writes = saved
        return None

    def _invariant(self, f, h, body, st, inv):
        """loop over local values by a stated invariant: established on
        entry, kept by one arbitrary iteration, with a decreasing measure.
        inv(values) -> [(condition, measure)] for every reading of the loop
        variables as the invariant's; the first one that is inductive is used"""
        import smt
        phis = [i for i in f.blocks[h].ins if i.op == 'phi']
        init = {p.res: st.env[p.res] for p in phis}
        if any(not isinstance(v, t.T) for v in init.values()):
            raise Unsupported('invariant over pointers')
        syms = {p.res: fresh('i' + p.res, init[p.res].s) for p in phis}
        names = [p.res for p in phis]
        n0 = (len(self.obligs), len(self.asserts), len(self.aborts), len(self.calls))
        for pick in inv([init[n].s for n in names]):
            del self.obligs[n0[0]:], self.asserts[n0[1]:], self.aborts[n0[2]:], self.calls[n0[3]:]
            at = lambda env: pick([env[n] for n in names])
            c0, _ = at(init)
            if smt.valid(c0, [st.g], 20000) is not True:
                continue
            cs, ms = at(syms)
            s = State(dict(st.env), t.and_(st.g, cs), dict(st.mem))
            for n in names:
                s.env[n] = syms[n]
            s.own = set()
            self.trace_reads, self.trace_writes = [], []
            exits, rets = self.region(f, h, s, body)
            wr = self.trace_writes
            self.trace_reads = self.trace_writes = None
            if rets or wr:
                raise Unsupported('invariant loop writes memory')
            ok = True
            for tg, x in exits:
                if tg != h:
                    continue
                c1, m1 = at(x.env)
                if smt.valid(c1, [x.g], 20000) is not True or smt.valid(t.ult(m1, ms), [x.g], 20000) is not True:
                    ok = False
                    break
            if ok:
                self.loops_sum += 1
                self.inv_done.append('%s %s' % (f.name, h))
                # the loop is left in some state of this kind
                self.inv_facts.append(or_(not_(st.g), or_(*[x.g for tg, x in exits if tg != h])))
                return [(tg, x) for tg, x in exits if tg != h]
        raise Unsupported('no reading of the invariant is inductive')

    def _summary(self, f, h, body, st):
        phis = [i for i in f.blocks[h].ins if i.op == 'phi']
        init = {p.res: st.env[p.res] for p in phis}
        k = fresh('k', 64, KMAX)
        carried = {}         # (obj, off, size) -> sym
        iv = self.pre_iv(f, body, phis, init)      # phi -> step
        spec = {p.res for p in phis if p.res not in iv and isinstance(init[p.res], (Ptr, PSet))}
        for r_ in spec:
            iv[r_] = 0                             # guessed invariant, checked below
        for rnd in range(16):
            s = State(dict(st.env), st.g, dict(st.mem))
            psym = {}
            for p in phis:
                v0 = init[p.res]
                if p.res in iv:
                    step = iv[p.res]
                    if isinstance(v0, Ptr):
                        s.env[p.res] = Ptr(v0.o, t.add(v0.off, t.mul(bv(step, 64), k)))
                    elif isinstance(v0, PSet):
                        s.env[p.res] = PSet([(g, q if isinstance(q, Ptr) and q.o is NULL else q.add(t.mul(bv(step, 64), k)))
                                             for g, q in v0.alts]) if step else v0
                    else:
                        w = v0.s
                        s.env[p.res] = t.add(v0, t.mul(bv(step, w), t.trunc(k, w) if w < 64 else k))
                else:
                    if isinstance(v0, Ptr):
                        x = fresh('p' + p.res, 64)
                        s.env[p.res] = Ptr(v0.o, x)
                        psym[p.res] = x
                    elif isinstance(v0, t.T):
                        x = fresh('p' + p.res, v0.s)
                        s.env[p.res] = x
                        psym[p.res] = x
                    else:
                        raise Unsupported('phi of kind %r' % (v0,))
            csym = {}
            for (o, off, size), kind in carried.items():
                x = fresh('c:%s+%d' % (o.name, off), kind)
                csym[(o, off, size)] = x
                self.cell_store(s, o, off, size, x)
            entry_mem = dict(s.mem)
            s.own = set()
            self.trace_reads, self.trace_writes = [], []
            n0 = len(self.obligs)
            nobj = len(self.all_objs)
            exits, rets = self.region(f, h, s, body)
            born = set(self.all_objs[nobj:])
            reads, writes = self.trace_reads, self.trace_writes
            self.trace_reads = self.trace_writes = None
            if rets:
                raise Unsupported('return inside loop')
            back = [x for tg, x in exits if tg == h]
            outs = [(tg, x) for tg, x in exits if tg != h]
            if not back or not outs:
                raise Unsupported('no back edge or exit')
            lat = back[0]
            for x in back[1:]:
                lat = self.merge(lat, x)
            # induction variables
            changed = False
            for p in phis:
                if p.res in spec and iv.get(p.res) == 0:
                    nx = lat.env[p.res]
                    if not same(nx, s.env[p.res]) and not same(nx, init[p.res]):
                        spec.discard(p.res)
                        del iv[p.res]
                        changed = True
                    continue
                if p.res in iv:
                    continue
                nx = lat.env[p.res]
                v0 = init[p.res]
                if p.res not in psym:
                    continue
                if isinstance(nx, Ptr):
                    if nx.o is not v0.o:
                        raise Unsupported('pointer phi changes object')
                    d = t.sub(nx.off, psym[p.res])
                elif isinstance(nx, t.T) and isinstance(nx.s, int):
                    d = t.sub(nx, psym[p.res])
                else:
                    continue
                if d.c:
                    iv[p.res] = t.sgn(d.d, d.s)
                    changed = True
            # carried memory cells
            for (o, off, size) in writes:
                if o in born:
                    continue                           # lives within one iteration
                if o not in entry_mem and o not in st.mem and not o.fresh and o.name.startswith('stk:') is False \
                        and o.name.startswith('byval'):
                    continue
                if o.log:
                    continue
                if not off.c:
                    # symbolic offset into a small object: all its cells are carried
                    raise Unsupported('symbolic store to cell object in loop')
                oo = t.sgn(off.d, 64)
                for key in list(carried):
                    if key[0] is o and key != (o, oo, size) and key[1] < oo + size and oo < key[1] + key[2]:
                        raise Unsupported('carried cells overlap')
                if (o, oo, size) not in carried:
                    if o in entry_mem or o.kind != 'undef' or True:
                        c = lat.mem.get(o)
                        v = None
                        if c is not None and oo in c.cells:
                            v = c.cells[oo][1]
                        if isinstance(v, t.T):
                            knd = v.s
                        elif v is None:
                            knd = 64 if size == 8 else size * 8
                            raise Unsupported('carried cell vanished')
                        else:
                            # pointer-valued temporary: acceptable only if not read before written
                            if v is UNDEF:
                                continue
                            if not self.temp_obj(o, st):
                                raise Unsupported('pointer carried in memory')
                            continue
                        carried[(o, oo, size)] = knd
                        changed = True
            if not changed:
                break
            del self.obligs[n0:]
        else:
            raise Unsupported('no fixpoint')
        # exit condition
        base = st.g
        exit_states = outs
        if len({tg for tg, _ in outs}) != 1 or len(outs) != 1:
            raise Unsupported('several exits')
        tgt, ex = outs[0]
        cont = strip(lat.g, base)
        excond = strip(ex.g, base)
        E = solve_exit(excond, cont, k)
        if E is None:
            excond, cont = untaut(excond), untaut(cont)
            E = solve_exit(excond, cont, k)
        if E is None:
            raise Unsupported('exit condition %r / %r' % (excond, cont))
        if E.c and E.d <= 70:
            raise Unsupported('constant trip count')     # unroll instead
        # values of carried quantities
        nxt = {}
        for p in phis:
            if p.res in iv:
                continue
            v0 = init[p.res]
            if isinstance(v0, Ptr):
                raise Unsupported('pointer recurrence')
            nxt[psym[p.res]] = (v0, lat.env[p.res])
        for key, x in csym.items():
            o, off, size = key
            v0 = None
            c0 = st.mem.get(o)
            ty = ir.F64 if x.s == 'f' else ('i', size * 8)
            s_ = State({}, TRUE, st.mem)
            v0 = self.cell_load(s_, o, off, size, ty)
            v1 = lat.mem[o].cells.get(off)
            if v1 is None or v1[0] != size:
                raise Unsupported('carried cell changed shape')
            nxt[x] = (v0, self.retype(v1[1], ty))
        cs = set(nxt)
        every = set(nxt)
        sub, last, lost = {}, {}, set()
        E1 = t.add(E, bv(1, 64))
        msub = {k: E}
        # guard inside body must not matter: values are merged already
        # two values that start equal and are updated alike are one
        twin, raw = {}, {}
        xs = list(nxt)
        for a_, x in enumerate(xs):
            for y in xs[:a_]:
                if y not in twin and x.s == y.s and nxt[x][0] is nxt[y][0] and nxt[x][1] is not x and \
                        t.subst(nxt[x][1], {x: y}) is t.subst(nxt[y][1], {x: y}):
                    twin[x] = y
                    break
        if twin:
            raw = {x: nxt[x][1] for x in nxt}
            for x in xs:
                if x in twin:
                    del nxt[x]
            for x, (v0, v1) in list(nxt.items()):
                nxt[x] = (v0, t.subst(v1, twin))
            cs = set(nxt)
        alias = {}
        for x, (v0, v1) in nxt.items():
            if v1 is not x and not t.depends(v1, {x}) and t.depends(v1, cs):
                for y, (w0, w1) in nxt.items():
                    if y is not x and y not in alias and w1 is v1 and t.depends(w1, {y}):
                        alias[x] = y          # a copy kept in memory of the running value y
                        break
        cs -= set(alias)
        for x, (v0, v1) in nxt.items():
            if x in alias:
                continue
            if v1 is x:
                sub[x] = v0
                continue
            if not t.depends(v1, cs):
                # overwritten every iteration: value of the previous iteration
                if v1 is v0:
                    sub[x] = v0
                else:
                    last[x] = (v0, v1)
                continue
            g = additive(v1, x)
            if g is not None and not t.depends(g, cs - set(last)) and not t.depends(g, {x}):
                sub[x] = ('sum', v0, g)
                continue
            others = {y for y in cs if y is not x and nxt[y][1] is not y}
            if not t.depends(v1, others):
                sub[x] = ('fold', v0, v1)
                continue
            lost.add(x)
        # no closed form: acceptable for values no other iteration reads, which are unknown afterwards
        for x in lost:
            if any(t.depends(v1, {x}) for y, (_, v1) in nxt.items() if y not in lost):
                raise Unsupported('recurrence over several carried values')
        # values that depend on per-iteration temporaries of the previous iteration
        for x, spec in list(sub.items()):
            body_t = spec[2] if isinstance(spec, tuple) else spec
            if isinstance(spec, tuple) and t.depends(body_t, set(last)):
                raise Unsupported('uses previous iteration temporaries')
        for x, (v0, v1) in last.items():
            pass
        inv = {x: s_ for x, s_ in sub.items() if isinstance(s_, t.T)}
        m1, m2 = dict(inv), {}
        for x, spec in sub.items():
            if isinstance(spec, tuple):
                kk = fresh('i', 64, KMAX)
                b_ = t.subst(spec[2], {**inv, k: kk})
                if t.depends(b_, {k}):
                    raise Unsupported('binder')
                if spec[0] == 'sum':
                    m1[x] = t.sum_(spec[1], E, b_, kk)
                    m2[nxt[x][1]] = t.sum_(spec[1], E1, b_, kk)
                else:
                    acc = fresh('acc', x.s)
                    b2 = t.subst(b_, {x: acc})
                    m1[x] = t.fold_(spec[1], E, b2, kk, acc)
                    m2[nxt[x][1]] = t.fold_(spec[1], E1, b2, kk, acc)
        for x, y in alias.items():
            v0 = nxt[x][0]
            if y not in m1:
                raise Unsupported('alias of an unsummarised value')
            m1[x] = m1[y] if v0 is nxt[y][0] else ite(t.eq(E, bv(0, 64)), v0, m1[y])
            if any(t.depends(v1, {x}) for _, v1 in nxt.values()):
                raise Unsupported('alias read in the loop')
        for x, (v0, v1) in last.items():
            # previous iteration's value: E==0 ? v0 : v1[k:=E-1]
            pv = t.subst(v1, {**inv, k: t.sub(E, bv(1, 64))})
            zero = t.eq(E, bv(0, 64))
            m1[x] = ite(zero, v0, pv) if E is not None else pv
        for x in lost:
            m1[x] = fresh('lost', x.s)
        for x, y in twin.items():
            m1[x] = m1[y]
        for x, v in raw.items():
            y = twin.get(x, x)
            if nxt[y][1] in m2:
                m2[v] = m2[nxt[y][1]]
        m1[k] = E
        memo = {}
        fullmap = dict(m1)
        fullmap.update(m2)
        # m2 keys are compound terms matched before descending
        def sb(v):
            if isinstance(v, t.T):
                return t.subst(v, fullmap, memo)
            if isinstance(v, Ptr):
                return Ptr(self.sbobj(v.o, k, E), sb(v.off))
            if isinstance(v, PSet):
                return PSet([(sb(g), sb(q)) for g, q in v.alts])
            if isinstance(v, tuple):
                return tuple(sb(y) for y in v)
            return v
        # soundness of array writes
        mapobjs = {}
        for (o, off, size) in writes:
            if o.log:
                mapobjs.setdefault(o, []).append((off, size))
        for o, ws in mapobjs.items():
            if o not in st.mem and o not in entry_mem and o.name.startswith('stk'):
                continue
            for off, size in ws:
                st_k = affine_step(off, k)
                if st_k is None or abs(st_k) < size:
                    raise Unsupported('array write not indexed by the loop counter: %r' % (off,))
                if t.depends(off, every):
                    raise Unsupported('array index carried')
            for (ro, roff) in reads:
                if ro is o:
                    ok = False
                    for off, size in ws:
                        d = t.sub(roff, off) if isinstance(roff, t.T) else None
                        if d is not None and d.c:
                            st_k = affine_step(off, k)
                            dd = t.sgn(d.d, 64)
                            # within the same element slot of this iteration
                            if o.elem and -o.elem < dd < o.elem and abs(st_k) >= o.elem and \
                                    split_same(roff, off, o.elem):
                                ok = True
                    if not ok:
                        raise Unsupported('array read across iterations')
        new = State({}, None, {})
        for kx, v in ex.env.items():
            if isinstance(kx, tuple):
                new.env[kx] = v
                continue
            v2 = sb(v)
            new.env[kx] = v2
        new.g = st.g
        for o, os in ex.mem.items():
            if o.log:
                old = st.mem.get(o)
                pre = old.log if old is not None else []
                n_pre = len(pre)
                log = list(pre)
                full = {id(w) for w in os.log[n_pre:]}
                latlog = lat.mem.get(o).log[n_pre:] if o in lat.mem else []
                # writes performed in the exiting (partial) iteration as well?
                ex_offs = {(w.off, w.size) for w in os.log[n_pre:]}
                for w in latlog:
                    if w.k is not None:
                        raise Unsupported('nested map write')
                    cnt = E1 if (w.off, w.size) in ex_offs else E
                    kk = fresh('j', 64, KMAX)
                    mm = dict(inv)
                    mm[k] = kk
                    g = strip(w.g, base)
                    if implied(and_(lat.g), w.g) or implied(cont, g):
                        g = TRUE
                    if isinstance(w.val, t.T) and t.depends(w.val, every - set(inv)):
                        # running value stored per index (prefix sums)
                        raise Unsupported('stores a running value')
                    log.append(W(and_(st.g, t.subst(g, mm)), t.subst(w.off, mm), w.size, subst_val(w.val, mm), kk,
                                 cnt))
                new.mem[o] = OS({}, log)
            else:
                nc = {}
                for off, (size, v) in os.cells.items():
                    nc[off] = (size, sb(v))
                new.mem[o] = OS(nc, None)
        # obligations generated in the body hold for an arbitrary k < E+1
        self.loops_sum += 1
        for i in range(n0, len(self.obligs)):
            ob = self.obligs[i]
            ob.g = and_(ob.g, t.ult(k, E1))
        return [(tgt, new)]

    def pre_iv(self, f, body, phis, init):
        """induction variables visible in the SSA text (phi + constant)"""
        defs = {}
        for b in body:
            for ins in f.blocks[b].ins:
                if ins.res is not None and ins.op in ('bin', 'gep'):
                    defs[ins.res] = ins
        r = {}
        for p in phis:
            step = None
            ok = True
            for v, b in p.ins_in if False else p.a['in']:
                if b not in body:
                    continue
                tot, cur = 0, v
                for _ in range(4):
                    if cur == ('v', p.res):
                        break
                    if cur[0] != 'v' or cur[1] not in defs:
                        ok = False
                        break
                    d = defs[cur[1]]
                    if d.op == 'bin' and d.a['o'] in ('add', 'sub') and d.a['y'][0] == 'c':
                        tot += d.a['y'][2] if d.a['o'] == 'add' else -d.a['y'][2]
                        cur = d.a['x']
                    elif d.op == 'gep' and all(x[1][0] == 'c' for x in d.a['ops'][1:]):
                        g = self.gep(None, d.a['bt'], Ptr(NULL, 0), d.a['ops'][1:])
                        tot += t.sgn(g.off.d, 64)
                        cur = d.a['ops'][0][1]
                    else:
                        ok = False
                        break
                else:
                    ok = False
                if step is None:
                    step = tot
                elif step != tot:
                    ok = False
            if ok and step:
                v0 = init[p.res]
                if isinstance(v0, Ptr) or isinstance(v0, t.T) and isinstance(v0.s, int):
                    r[p.res] = step
        return r

    def temp_obj(self, o, st):
        return o.name.startswith('stk:') or o.name == 'byval'

    def sbobj(self, o, k, E):
        return o


class _NR:
    pass


NORETURN, NOTHERE = _NR(), _NR()


# ------------------------------------------------------------------ helpers
def tautology(c, limit=10):
    """true under every assignment of its atoms"""
    ats = []

    def atoms(x):
        if x.op in ('and', 'or', 'not'):
            for y in x.a:
                atoms(y)
        elif x not in ats and not x.c:
            ats.append(x)
    atoms(c)
    if len(ats) > limit:
        return False
    for n in range(1 << len(ats)):
        v = {x: bool(n >> i & 1) for i, x in enumerate(ats)}

        def ev(x):
            if x.op == 'and':
                return all(ev(y) for y in x.a)
            if x.op == 'or':
                return any(ev(y) for y in x.a)
            if x.op == 'not':
                return not ev(x.a[0])
            return bool(x.d) if x.c else v[x]
        if not ev(c):
            return False
    return True


def untaut(g):
    return and_(*[x for x in (g.a if g.op == 'and' else (g,)) if not (x.op == 'or' and tautology(x))])


def conj(g):
    return set(g.a) if g.op == 'and' else {g}


def implied(g, c):
    """cheap syntactic implication"""
    if c is TRUE or c is g:
        return True
    return conj(c) <= conj(g)


def strip(g, base):
    """remove the conjuncts of base from g"""
    if g is base:
        return TRUE
    bs = conj(base)
    return and_(*[x for x in conj(g) if x not in bs])


def relative(g2, g1):
    """a condition that separates two disjoint guards"""
    a, b = conj(g1), conj(g2)
    com = a & b
    r2 = and_(*[x for x in b - com]) if b - com else TRUE
    r1 = and_(*[x for x in a - com]) if a - com else TRUE
    # any single complementary literal suffices
    for x in (b - com):
        if not_(x) in a:
            return x
    if r2 is TRUE:
        return not_(r1)
    return r2


def simplify_under(c, g):
    cs = conj(g)
    if c in cs:
        return TRUE
    if not_(c) in cs:
        return FALSE
    if c.op == 'and':
        return and_(*[simplify_under(x, g) for x in c.a])
    if c.op == 'or':
        return or_(*[simplify_under(x, g) for x in c.a])
    return c


def split_index(off, elem):
    """off = elem*idx + c  with 0<=c<elem"""
    if elem is None:
        return None, None
    c, p = t._lin_parts(off)
    c = t.sgn(c, 64)
    r = c % elem
    idx = {}
    for a, kf in p.items():
        kk = t.sgn(kf, 64)
        if kk % elem:
            return None, None
        idx[a] = kk // elem
    return t._mklin((c - r) // elem, idx, 64), r


def split_same(o1, o2, elem):
    a, c1 = split_index(o1, elem)
    b, c2 = split_index(o2, elem)
    return a is not None and a is b


def disjoint_lin(d, size, wsize, elem):
    """|d| can never be smaller than the access sizes: all coefficients are
    multiples of elem and the constant part lies strictly between"""
    if elem is None or d.op != 'lin':
        return False
    for kf in d.d[1]:
        if t.sgn(kf, 64) % elem:
            return False
    c = t.sgn(d.d[0], 64) % elem
    return c >= wsize and c + size <= elem


def affine_step(off, k):
    c, p = t._lin_parts(off)
    s = p.get(k)
    for a in p:
        if a is not k and t.depends(a, {k}):
            return None
    return None if s is None else t.sgn(s, 64)


def solve_affine(woff, k, off, size, wsize):
    s = affine_step(woff, k)
    if s is None:
        return None
    c, p = t._lin_parts(woff)
    p = {a: v for a, v in p.items() if a is not k}
    rest = t._mklin(c, p, 64)
    d = t.sub(off, rest)          # must equal s*k
    c, p = t._lin_parts(d)
    c = t.sgn(c, 64)
    q = {}
    for a, v in p.items():
        v = t.sgn(v, 64)
        if v % abs(s):
            return None
        q[a] = v // s
    r = c % abs(s)
    if r:
        if r >= wsize and r + size <= abs(s):
            return 'disjoint'
        return None
    return t._mklin(c // s, q, 64)


def in_range(sol, n):
    """sol < n known because sol is a loop counter bounded by the same n"""
    return getattr(sol, 'op', None) == 'sym' and sol.d.name.startswith(('k!', 'j!', 'i!'))


def subst_val(v, m):
    if isinstance(v, t.T):
        return t.subst(v, m)
    if isinstance(v, Ptr):
        return Ptr(v.o, t.subst(v.off, m))
    if isinstance(v, PSet):
        return PSet([(t.subst(g, m), subst_val(q, m)) for g, q in v.alts])
    if isinstance(v, tuple):
        return tuple(subst_val(x, m) for x in v)
    return v


def additive(v, x):
    """v = x + g (as reals), g free of x: return g"""
    if v is x:
        return fc(0.0)
    if v.op == 'fadd':
        for i in (0, 1):
            if not t.depends(v.a[1 - i], {x}):
                g = additive(v.a[i], x)
                if g is not None:
                    o = v.a[1 - i]
                    return o if (g.c and g.d == 0.0) else t.fadd(g, o)
        return None
    if v.op == 'fsub':
        if not t.depends(v.a[1], {x}):
            g = additive(v.a[0], x)
            if g is not None:
                return t.fneg(v.a[1]) if (g.c and g.d == 0.0) else t.fsub(g, v.a[1])
        return None
    if v.op == 'ite' and not t.depends(v.a[0], {x}):
        g1, g2 = additive(v.a[1], x), additive(v.a[2], x)
        if g1 is not None and g2 is not None:
            return ite(v.a[0], g1, g2)
    return None


def solve_exit(ex, cont, k):
    """smallest k with ex(k); requires cont = not ex"""
    if not_(ex) is not cont and ex is not not_(cont):
        return None
    e = ex
    # eq(k*1 + c, X)
    def eqk(e):
        x, y = e.a
        d = t.sub(x, y)
        return d
    if e.op == 'eq' and isinstance(e.a[0].s, int):
        a, b = t.strip_ext(e.a[0]), t.strip_ext(e.a[1])
        w = max(a.s, b.s, 64)
        d = t.sub(t.zext(a, 64), t.zext(b, 64))
        c, p = t._lin_parts(d)
        s = p.pop(k, None)
        if s is None:
            return None
        for z in p:
            if t.depends(z, {k}):
                return None
        s = t.sgn(s, 64)
        rest = t._mklin(c, p, 64)
        if s == 1:
            return t.neg(rest)
        if s == -1:
            return rest
        # exact division
        c = t.sgn(c, 64)
        if c % s == 0 and all(t.sgn(v, 64) % s == 0 for v in p.values()):
            return t._mklin(-c // s, {a_: -(t.sgn(v, 64)) // s for a_, v in p.items()}, 64)
        return None
    neg_ = e.op == 'not'
    q = e.a[0] if neg_ else e
    if q.op in ('ult', 'slt'):
        x, y = t.zext(t.strip_ext(q.a[0]), 64), t.zext(t.strip_ext(q.a[1]), 64)
        if neg_:
            # exit when !(x<y) i.e. x>=y ;  x = k + c
            c, p = t._lin_parts(t.sub(x, y))
            s = p.pop(k, None)
            if s == 1 and not any(t.depends(z, {k}) for z in p):
                return t.neg(t._mklin(c, p, 64))
            return None
        # exit when x<y, y = k + c : k >= x - c + 1
        c, p = t._lin_parts(t.sub(y, x))
        s = p.pop(k, None)
        if s == 1 and not any(t.depends(z, {k}) for z in p):
            return t.sub(bv(1, 64), t._mklin(c, p, 64))
    return None
