"""Parser for the textual LLVM IR (clang 18, opaque pointers) that the front
end produces from /repo's headers.  Only what the symbolic executor needs."""
import re, struct

class IRError(Exception):
    pass

# ---------------------------------------------------------------- types
# int: ('i',w)  double: ('f',64)  float: ('f',32)  ptr: ('p',)  void: ('v',)
# array: ('a',n,t)  struct: ('s',name)  literal struct: ('l',(t..),packed)
# vector: ('vec',n,t)   x86_fp80: ('f',80)
I1, I8, I32, I64 = ('i', 1), ('i', 8), ('i', 32), ('i', 64)
F64, PTR, VOID = ('f', 64), ('p',), ('v',)

TOK = re.compile(r'''
  (?P<ws>[ \t]+)
 |(?P<cstr>c"(?:[^"])*")
 |(?P<name>[%@](?:"(?:[^"])*"|[-a-zA-Z$._0-9]+))
 |(?P<str>"(?:[^"])*")
 |(?P<meta>!(?:[-a-zA-Z$._0-9\\]+)?)
 |(?P<attrg>\#[0-9]+)
 |(?P<hexf>0x[KMLHR]?[0-9A-Fa-f]+)
 |(?P<num>-?[0-9]+(?:\.[0-9]*(?:[eE][-+]?[0-9]+)?)?)
 |(?P<word>[a-zA-Z_$.][-a-zA-Z0-9_$.]*)
 |(?P<dots>\.\.\.)
 |(?P<p>[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise IRError('token at: ' + s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k == 'ws':
            continue
        out.append((k, m.group()))
    return out


class P:
    """token cursor"""
    __slots__ = ('t', 'i')

    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def eat(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.eat(v):
            raise IRError('expected %r got %r in %s' % (v, self.peek(), ' '.join(x[1] for x in self.t)[:300]))


def uq(n):
    if len(n) > 1 and n[1] == '"':
        return n[0] + n[2:-1]
    return n


PRIM = {'void': VOID, 'double': F64, 'float': ('f', 32), 'ptr': PTR, 'x86_fp80': ('f', 80),
        'label': ('label',), 'metadata': ('meta',), 'token': ('token',), 'opaque': ('opaque',)}


def parse_type(p):
    k = p.kind()
    v = p.peek()
    if k == 'word':
        if v in PRIM:
            p.next()
            t = PRIM[v]
        elif re.fullmatch(r'i\d+', v):
            p.next()
            t = ('i', int(v[1:]))
        else:
            raise IRError('type? ' + v)
    elif k == 'name':
        p.next()
        t = ('s', uq(v))
    elif v == '[':
        p.next()
        n = int(p.next())
        p.expect('x')
        e = parse_type(p)
        p.expect(']')
        t = ('a', n, e)
    elif v == '{':
        p.next()
        ts = []
        while not p.eat('}'):
            ts.append(parse_type(p))
            p.eat(',')
        t = ('l', tuple(ts), False)
    elif v == '<':
        p.next()
        if p.eat('{'):
            ts = []
            while not p.eat('}'):
                ts.append(parse_type(p))
                p.eat(',')
            p.expect('>')
            t = ('l', tuple(ts), True)
        else:
            n = int(p.next())
            p.expect('x')
            e = parse_type(p)
            p.expect('>')
            t = ('vec', n, e)
    else:
        raise IRError('type? %r' % v)
    # function types
    if p.peek() == '(' and p.kind() == 'p':
        save = p.i
        # could be a function type: ret (args)
        d, j = 0, p.i
        while True:
            tv = p.t[j][1]
            if tv == '(':
                d += 1
            elif tv == ')':
                d -= 1
                if d == 0:
                    break
            j += 1
        # accept as function type only if next after is a name/ptr-ish (call) -- caller handles
        p.i = save
        return t
    return t


# ---------------------------------------------------------------- values
# ('c', type, python)  const int / float ; ('null',) ; ('undef',) ; ('zero',)
# ('v', name) local ; ('g', name) global ; ('expr', op, ...) ; ('agg',[...])
# ('bytes', b)

def hexfloat(s):
    if s[2] in 'KMLHR':
        raise IRError('fp80 constant ' + s)
    return struct.unpack('>d', int(s[2:], 16).to_bytes(8, 'big'))[0]


PARAM_ATTR = {'noundef', 'nonnull', 'nocapture', 'readonly', 'readnone', 'writeonly', 'noalias', 'zeroext', 'signext',
              'returned', 'nofree', 'immarg', 'inreg', 'nest', 'writable', 'dead_on_unwind', 'swiftself', 'allocalign',
              'noinline', 'inrange', 'nosync', 'allocptr'}
PARAM_ATTR_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'range',
                  'captures', 'initializes', 'nofpclass'}


def skip_attrs(p):
    while True:
        v = p.peek()
        if v in PARAM_ATTR:
            p.next()
        elif v in PARAM_ATTR_ARG:
            p.next()
            if p.peek() == '(':
                d = 0
                while True:
                    x = p.next()
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0:
                            break
            elif v == 'align':
                p.next()
        elif p.kind() == 'str':
            p.next()
            if p.eat('='):
                p.next()
        else:
            return


CE_BIN = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}
CE_CAST = {'ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'}


def parse_const(p, ty):
    k, v = p.kind(), p.peek()
    if k == 'name':
        p.next()
        v = uq(v)
        return ('v', v) if v[0] == '%' else ('g', v)
    if k == 'num':
        p.next()
        if ty[0] == 'f':
            return ('c', ty, float(v))
        return ('c', ty, int(v))
    if k == 'hexf':
        p.next()
        if ty == ('f', 64) or ty == ('f', 32):
            return ('c', ty, hexfloat(v))
        return ('undef', ty)
    if k == 'cstr':
        p.next()
        b, s, i = bytearray(), v[2:-1], 0
        while i < len(s):
            if s[i] == '\\':
                b.append(int(s[i + 1:i + 3], 16))
                i += 3
            else:
                b.extend(s[i].encode('utf8'))
                i += 1
        return ('bytes', bytes(b))
    if v == 'true':
        p.next()
        return ('c', ('i', 1), 1)
    if v == 'false':
        p.next()
        return ('c', ('i', 1), 0)
    if v == 'null':
        p.next()
        return ('null',)
    if v in ('undef', 'poison'):
        p.next()
        return ('undef', ty)
    if v == 'zeroinitializer':
        p.next()
        return ('zero', ty)
    if v in ('[', '{', '<'):
        op = p.next()
        if op == '<' and p.peek() == '{':
            p.next()
            op = '<{'
        close = {'[': ']', '{': '}', '<': '>', '<{': '}'}[op]
        el = []
        while not p.eat(close):
            t = parse_type(p)
            el.append((t, parse_const(p, t)))
            p.eat(',')
        if op == '<{':
            p.expect('>')
        return ('agg', el)
    if v == 'getelementptr':
        p.next()
        while p.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
            p.next()
        p.expect('(')
        bt = parse_type(p)
        p.expect(',')
        ops = []
        while True:
            p.eat('inrange')
            t = parse_type(p)
            ops.append((t, parse_const(p, t)))
            if not p.eat(','):
                break
        p.expect(')')
        return ('gep', bt, ops)
    if v in CE_CAST:
        p.next()
        p.expect('(')
        t = parse_type(p)
        x = parse_const(p, t)
        p.expect('to')
        t2 = parse_type(p)
        p.expect(')')
        return ('cast', v, t, x, t2)
    if v in CE_BIN:
        p.next()
        while p.peek() in ('nuw', 'nsw', 'exact'):
            p.next()
        p.expect('(')
        t = parse_type(p)
        a = parse_const(p, t)
        p.expect(',')
        t2 = parse_type(p)
        b = parse_const(p, t2)
        p.expect(')')
        return ('cebin', v, t, a, b)
    if v == 'icmp':
        p.next()
        pr = p.next()
        p.expect('(')
        t = parse_type(p)
        a = parse_const(p, t)
        p.expect(',')
        t2 = parse_type(p)
        b = parse_const(p, t2)
        p.expect(')')
        return ('ceicmp', pr, t, a, b)
    if v in ('blockaddress', 'dso_local_equivalent', 'no_cfi', 'asm'):
        raise IRError('unsupported constant ' + v)
    raise IRError('const? %r %r' % (k, v))


# ---------------------------------------------------------------- module
class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'line')

    def __init__(self, op, res, ty, a, line):
        self.op, self.res, self.ty, self.a, self.line = op, res, ty, a, line

    def __repr__(self):
        return self.line.strip()[:140]


class Block:
    def __init__(self, name):
        self.name, self.ins = name, []

    @property
    def term(self):
        return self.ins[-1]

    def succs(self):
        t = self.term
        if t.op == 'br':
            return [t.a['dst']] if 'dst' in t.a else [t.a['t'], t.a['f']]
        if t.op == 'switch':
            return [t.a['default']] + [d for _, d in t.a['cases']]
        if t.op == 'invoke':
            return [t.a['normal']]
        return []


class Func:
    def __init__(self, name, ret, params, vararg, module):
        self.name, self.ret, self.params, self.vararg = name, ret, params, vararg
        self.module = module
        self.lines = None
        self._blocks = None

    @property
    def blocks(self):
        if self._blocks is None:
            self._blocks = parse_body(self)
        return self._blocks


class Module:
    def __init__(self, text):
        self.types, self.globals, self.funcs, self.decls, self.aliases = {}, {}, {}, {}, {}
        self._size, self._flat = {}, {}
        cur = None
        it = iter(text.split('\n'))
        for ln in it:
            if cur is not None:
                if ln.startswith('}'):
                    cur = None
                else:
                    cur.lines.append(ln)
                continue
            if not ln:
                continue
            c = ln[0]
            if c == '%':
                m = re.match(r'(%(?:"[^"]*"|[^ ]+)) = type (.*)$', ln)
                p = P(tokenize(m.group(2)))
                self.types[uq(m.group(1))] = parse_type(p)
            elif c == '@':
                self._global(ln)
            elif ln.startswith('define'):
                cur = self._fn(ln)
                cur.lines = []
                self.funcs[cur.name] = cur
            elif ln.startswith('declare'):
                f = self._fn(ln)
                self.decls[f.name] = f

    def _global(self, ln):
        m = re.match(r'(@(?:"[^"]*"|[^ ]+)) = (.*)$', ln)
        name, rest = uq(m.group(1)), m.group(2)
        m2 = re.match(r'(.*?)\b(global|constant|alias)\b ?(.*)$', rest)
        if not m2:
            return
        if m2.group(2) == 'alias':
            self.aliases[name] = uq(re.findall(r'@(?:"[^"]*"|[-\w$.]+)', m2.group(3))[-1])
            return
        self.globals[name] = dict(const=m2.group(2) == 'constant', raw=m2.group(3), external='external' in m2.group(1),
                                  parsed=None)

    def global_info(self, name):
        g = self.globals[name]
        if g['parsed'] is None:
            p = P(tokenize(g['raw']))
            t = parse_type(p)
            init = None
            if not g['external']:
                init = parse_const(p, t)
            g['parsed'] = (t, init)
        return g['parsed'][0], g['parsed'][1], g['const']

    def _fn(self, ln):
        # strip: define [attrs] ret @name(params)
        m = re.search(r'@(?:"[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
        name = uq(ln[m.start():m.end() - 1])
        # return type: text before
        head = ln[:m.start()].split(None, 1)[1] if ' ' in ln[:m.start()] else ''
        p = P(tokenize(head))
        ret = None
        while p.i < len(p.t):
            save = p.i
            try:
                if p.kind() == 'word' and p.peek() not in PRIM and not re.fullmatch(r'i\d+', p.peek()):
                    raise IRError('x')
                ret = parse_type(p)
            except IRError:
                p.i = save
                p.next()
                if p.peek() == '(':
                    while p.next() != ')':
                        pass
        p = P(tokenize(ln[m.end() - 1:]))
        p.expect('(')
        params, va = [], False
        while not p.eat(')'):
            if p.eat('...'):
                va = True
                continue
            t = parse_type(p)
            skip_attrs_sret = {}
            # remember sret/byval type
            j = p.i
            while j < len(p.t) and p.t[j][1] not in (',',) and p.t[j][0] != 'name':
                if p.t[j][1] in ('sret', 'byval'):
                    q = P(p.t)
                    q.i = j + 2
                    skip_attrs_sret[p.t[j][1]] = parse_type(q)
                    break
                if p.t[j][1] == ')' and p.t[j + 1][1] not in (',',) and p.t[j - 1][0] != 'num':
                    break
                j += 1
            skip_attrs(p)
            nm = None
            if p.kind() == 'name':
                nm = uq(p.next())
            params.append((t, nm, skip_attrs_sret))
            p.eat(',')
        # unnamed params are numbered
        k = 0
        params2 = []
        for (t, nm, a) in params:
            if nm is None:
                nm = '%' + str(k)
            params2.append((t, nm, a))
            k += 1
        return Func(name, ret, params2, va, self)

    # ---- layout
    def resolve(self, t):
        while t[0] == 's':
            t = self.types[t[1]]
        return t

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            w = (t[1] + 7) // 8
            a = 1
            while a < w:
                a *= 2
            return min(a, 16)
        if k == 'f':
            return {32: 4, 64: 8, 80: 16}[t[1]]
        if k == 'p':
            return 8
        if k == 'a':
            return self.align(t[2])
        if k == 'vec':
            return self.size(t)
        if k == 'l':
            if t[2]:
                return 1
            return max([self.align(x) for x in t[1]] or [1])
        raise IRError('align %r' % (t,))

    def size(self, t):
        if t in self._size:
            return self._size[t]
        r = self._sz(t)
        self._size[t] = r
        return r

    def _sz(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            w = (t[1] + 7) // 8
            a = 1
            while a < w:
                a *= 2
            return a
        if k == 'f':
            return {32: 4, 64: 8, 80: 16}[t[1]]
        if k == 'p':
            return 8
        if k in ('a', 'vec'):
            return t[1] * self.size(t[2])
        if k == 'l':
            o, packed = 0, t[2]
            for x in t[1]:
                if not packed:
                    a = self.align(x)
                    o = (o + a - 1) // a * a
                o += self.size(x)
            if not packed:
                a = self.align(t)
                o = (o + a - 1) // a * a
            return o
        raise IRError('size %r' % (t,))

    def field_off(self, t, i):
        t = self.resolve(t)
        o = 0
        for j, x in enumerate(t[1]):
            if not t[2]:
                a = self.align(x)
                o = (o + a - 1) // a * a
            if j == i:
                return o, x
            o += self.size(x)
        raise IRError('field')

    def flatten(self, t, base=0):
        """[(offset, scalar type)]"""
        r = self.resolve(t)
        k = r[0]
        if k in ('i', 'f', 'p'):
            return [(base, r)]
        if k in ('a', 'vec'):
            out, sz = [], self.size(r[2])
            for j in range(r[1]):
                out += self.flatten(r[2], base + j * sz)
            return out
        if k == 'l':
            out = []
            for j in range(len(r[1])):
                o, x = self.field_off(r, j)
                out += self.flatten(x, base + o)
            return out
        raise IRError('flatten %r' % (r,))

    def fn(self, name):
        name = self.aliases.get(name, name)
        return self.funcs.get(name)

    def find(self, rx):
        return [n for n in self.funcs if re.search(rx, n)]


FMF = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub',
       'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fpext', 'fptrunc', 'ptrtoint', 'inttoptr',
        'bitcast', 'addrspacecast'}
FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'inbounds', 'volatile', 'nusw', 'samesign'}


def parse_body(f):
    blocks, order = {}, []
    lines = f.lines
    # entry label: numbered = number of unnamed params
    cur = None
    i = 0
    joined = []
    n = len(lines)
    while i < n:
        ln = lines[i]
        # join continuation lines (switch, landingpad, invoke)
        if re.match(r'\s*(%\S+ = )?(invoke|landingpad)\b', ln) or ' switch ' in ln[:12]:
            if ' switch ' in ln[:12]:
                while ']' not in ln.split('[', 1)[1] if '[' in ln else True:
                    i += 1
                    ln += ' ' + lines[i].strip()
            else:
                while i + 1 < n and re.match(r'\s+(to label|cleanup|catch|filter)\b', lines[i + 1]):
                    i += 1
                    ln += ' ' + lines[i].strip()
        joined.append(ln)
        i += 1
    for ln in joined:
        if not ln.strip() or ln.lstrip().startswith(';'):
            continue
        m = re.match(r'("(?:[^"])*"|[-a-zA-Z$._0-9]+):', ln)
        if m and ln[0] != ' ':
            nm = '%' + m.group(1).strip('"')
            cur = Block(nm)
            blocks[nm] = cur
            order.append(nm)
            continue
        if cur is None:
            # implicit entry label
            k = 0
            for (t, pn, a) in f.params:
                if re.fullmatch(r'%\d+', pn):
                    k = max(k, int(pn[1:]) + 1)
            cur = Block('%' + str(k))
            blocks[cur.name] = cur
            order.append(cur.name)
        try:
            ins = parse_ins(ln)
        except (IRError, IndexError, ValueError) as e:
            ins = Instr('unsupported', None, None, {'why': str(e)}, ln)
        if ins is not None:
            cur.ins.append(ins)
    f.entry = order[0]
    f.order = order
    return blocks


def parse_call(p, op, res, ln):
    # [tail] call [fmf] [cc] [attrs] ty [fnty] fn(args)
    while True:
        v = p.peek()
        if v in FMF or v in ('fastcc', 'coldcc', 'ccc') or v in PARAM_ATTR:
            p.next()
        elif v in PARAM_ATTR_ARG:
            skip_attrs(p)
        else:
            break
    ty = parse_type(p)
    if p.peek() == '(' and p.kind() == 'p':
        # explicit fn type for varargs
        d = 0
        while True:
            x = p.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1
                if d == 0:
                    break
    if p.peek() == 'asm':
        return Instr('asm', res, ty, {}, ln)
    callee = parse_const(p, PTR)
    p.expect('(')
    args = []
    while not p.eat(')'):
        t = parse_type(p)
        if t == ('meta',):
            # metadata operand: skip to , or ) at depth 0
            d = 0
            while not (d == 0 and p.peek() in (',', ')')):
                x = p.next()
                if x in '({[':
                    d += 1
                elif x in ')}]':
                    d -= 1
            p.eat(',')
            continue
        # byval/sret
        at = {}
        j = p.i
        while j < len(p.t) and p.t[j][1] in PARAM_ATTR | PARAM_ATTR_ARG | {'('} or p.t[j][0] == 'num':
            if p.t[j][1] == 'byval':
                q = P(p.t)
                q.i = j + 2
                at['byval'] = parse_type(q)
                break
            if p.t[j][1] in PARAM_ATTR_ARG and p.t[j + 1][1] == '(':
                break
            j += 1
        skip_attrs(p)
        args.append((t, parse_const(p, t), at))
        p.eat(',')
    a = {'fn': callee, 'args': args}
    if op == 'invoke':
        while p.peek() != 'to':
            p.next()
        p.next()
        p.expect('label')
        a['normal'] = uq(p.next())
        p.expect('unwind')
        p.expect('label')
        a['unwind'] = uq(p.next())
    return Instr(op, res, ty, a, ln)


def parse_ins(ln):
    s = ln
    m = re.search(r', ![a-z]', s)
    if m and 'call' not in s:
        s = s[:m.start()]
    elif m:
        # strip trailing metadata attachments of calls
        mm = re.search(r'\)(?: #\d+)?(, ![a-zA-Z.]+ ![0-9]+)+\s*$', s)
        if mm:
            s = s[:mm.start(1)] if False else re.sub(r'(, ![a-zA-Z.]+ ![0-9]+)+\s*$', '', s)
    p = P(tokenize(s))
    res = None
    if p.kind() == 'name' and p.peek(1) == '=':
        res = uq(p.next())
        p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op in ('call', 'invoke'):
        return parse_call(p, op, res, ln)
    if op in BIN:
        flags = []
        while p.peek() in FMF or p.peek() in FLAGS:
            flags.append(p.next())
        t = parse_type(p)
        a = parse_const(p, t)
        p.expect(',')
        b = parse_const(p, t)
        return Instr('bin', res, t, {'o': op, 'x': a, 'y': b, 'flags': flags}, ln)
    if op == 'fneg':
        while p.peek() in FMF:
            p.next()
        t = parse_type(p)
        return Instr('fneg', res, t, {'x': parse_const(p, t)}, ln)
    if op in CAST:
        while p.peek() in FLAGS or p.peek() in FMF:
            p.next()
        t = parse_type(p)
        x = parse_const(p, t)
        p.expect('to')
        return Instr('cast', res, parse_type(p), {'o': op, 'x': x, 'from': t}, ln)
    if op in ('icmp', 'fcmp'):
        while p.peek() in FMF or p.peek() in FLAGS:
            p.next()
        pr = p.next()
        t = parse_type(p)
        a = parse_const(p, t)
        p.expect(',')
        b = parse_const(p, t)
        return Instr(op, res, I1, {'p': pr, 't': t, 'x': a, 'y': b}, ln)
    if op == 'select':
        while p.peek() in FMF:
            p.next()
        ct = parse_type(p)
        c = parse_const(p, ct)
        p.expect(',')
        t = parse_type(p)
        a = parse_const(p, t)
        p.expect(',')
        t2 = parse_type(p)
        b = parse_const(p, t2)
        return Instr('select', res, t, {'c': c, 'x': a, 'y': b}, ln)
    if op == 'phi':
        while p.peek() in FMF:
            p.next()
        t = parse_type(p)
        inc = []
        while p.eat('['):
            v = parse_const(p, t)
            p.expect(',')
            inc.append((v, uq(p.next())))
            p.expect(']')
            p.eat(',')
        return Instr('phi', res, t, {'in': inc}, ln)
    if op == 'load':
        while p.peek() in ('volatile', 'atomic'):
            p.next()
        t = parse_type(p)
        p.expect(',')
        parse_type(p)
        return Instr('load', res, t, {'p': parse_const(p, PTR)}, ln)
    if op == 'store':
        while p.peek() in ('volatile', 'atomic'):
            p.next()
        t = parse_type(p)
        v = parse_const(p, t)
        p.expect(',')
        parse_type(p)
        return Instr('store', None, t, {'v': v, 'p': parse_const(p, PTR)}, ln)
    if op == 'alloca':
        t = parse_type(p)
        n = ('c', I64, 1)
        if p.eat(','):
            if p.peek() != 'align' and p.kind() != 'meta':
                nt = parse_type(p)
                n = parse_const(p, nt)
                return Instr('alloca', res, t, {'n': n, 'nt': nt}, ln)
        return Instr('alloca', res, t, {'n': n, 'nt': I64}, ln)
    if op == 'getelementptr':
        while p.peek() in FLAGS:
            p.next()
        bt = parse_type(p)
        p.expect(',')
        ops = []
        while True:
            t = parse_type(p)
            ops.append((t, parse_const(p, t)))
            if not p.eat(','):
                break
            if p.kind() == 'meta':
                break
        return Instr('gep', res, PTR, {'bt': bt, 'ops': ops}, ln)
    if op == 'br':
        if p.peek() == 'label':
            p.next()
            return Instr('br', None, None, {'dst': uq(p.next())}, ln)
        parse_type(p)
        c = parse_const(p, I1)
        p.expect(',')
        p.expect('label')
        t = uq(p.next())
        p.expect(',')
        p.expect('label')
        return Instr('br', None, None, {'c': c, 't': t, 'f': uq(p.next())}, ln)
    if op == 'switch':
        t = parse_type(p)
        v = parse_const(p, t)
        p.expect(',')
        p.expect('label')
        d = uq(p.next())
        p.expect('[')
        cases = []
        while not p.eat(']'):
            parse_type(p)
            c = parse_const(p, t)
            p.expect(',')
            p.expect('label')
            cases.append((c, uq(p.next())))
        return Instr('switch', None, t, {'v': v, 'default': d, 'cases': cases}, ln)
    if op == 'ret':
        t = parse_type(p)
        if t == VOID:
            return Instr('ret', None, t, {'v': None}, ln)
        return Instr('ret', None, t, {'v': parse_const(p, t)}, ln)
    if op == 'unreachable':
        return Instr('unreachable', None, None, {}, ln)
    if op == 'resume':
        return Instr('unreachable', None, None, {}, ln)
    if op == 'landingpad':
        return Instr('landingpad', res, None, {}, ln)
    if op == 'extractvalue':
        t = parse_type(p)
        v = parse_const(p, t)
        ix = []
        while p.eat(','):
            ix.append(int(p.next()))
        return Instr('extractvalue', res, t, {'x': v, 'ix': ix}, ln)
    if op == 'insertvalue':
        t = parse_type(p)
        v = parse_const(p, t)
        p.expect(',')
        t2 = parse_type(p)
        w = parse_const(p, t2)
        ix = []
        while p.eat(','):
            ix.append(int(p.next()))
        return Instr('insertvalue', res, t, {'x': v, 'y': w, 'ix': ix}, ln)
    if op == 'freeze':
        t = parse_type(p)
        return Instr('freeze', res, t, {'x': parse_const(p, t)}, ln)
    if op == 'fence':
        return None
    raise IRError('op ' + op)
