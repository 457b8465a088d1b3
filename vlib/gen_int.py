"""C01: integer and pointer expressions."""
from .core import *
from .diff import *

# name, bytes, signed
ITYPES = [('int', 4, 1), ('unsigned int', 4, 0), ('long long', 8, 1), ('unsigned long long', 8, 0), ('char', 1, 1), ('unsigned char', 1, 0), ('short', 2, 1), ('unsigned short', 2, 0),
          ('signed char', 1, 1), ('long', 4, 1), ('unsigned long', 4, 0), ('_Bool', 1, 0), ('__int64', 8, 1), ('unsigned __int8', 1, 0), ('__int16', 2, 1)]
RANK = {'char': 1, 'short': 2, 'int': 3, 'long': 4, 'long long': 5}


class T:
    __slots__ = ('name', 'size', 'signed', 'rank')

    def __init__(s, name, size, signed, rank):
        s.name, s.size, s.signed, s.rank = name, size, signed, rank


def mk(name, size, signed):
    base = name.replace('unsigned ', '').replace('signed ', '')
    base = {'__int64': 'long long', '__int8': 'char', '__int16': 'short', '_Bool': 'char'}.get(base, base)
    return T(name, size, signed, 0 if name == '_Bool' else RANK[base])


TYPES = [mk(*t) for t in ITYPES]
TY = {t.name: t for t in TYPES}
INT, UINT, LL, ULL = TY['int'], TY['unsigned int'], TY['long long'], TY['unsigned long long']


def promote(t):
    return t if t.rank >= 3 else INT


def unsigned_of(t):
    return {'int': UINT, 'long': TY['unsigned long'], 'long long': ULL, '__int64': ULL}.get(t.name, t)


def usual(a, b):
    a, b = promote(a), promote(b)
    if a.signed == b.signed:
        return a if a.rank >= b.rank else b
    u, s = (a, b) if not a.signed else (b, a)
    if u.rank >= s.rank:
        return u
    if s.size > u.size:
        return s
    return unsigned_of(s)


def bval(ch, size, signed):
    """boundary heavy value of a type, as python int"""
    bits = size * 8
    k = ch.n(10)
    if k == 0:
        v = 0
    elif k == 1:
        v = ch.of([1, 2, 3, 7, 8, 10, 16, 100])
    elif k == 2:
        v = -ch.of([1, 2, 3, 5, 8, 100])
    elif k == 3:
        v = (1 << ch.n(bits)) + ch.of([0, -1, 1])
    elif k == 4:
        v = -(1 << ch.n(bits)) + ch.of([0, -1, 1])
    elif k == 5:
        v = (1 << (bits - 1)) - ch.of([1, 0, 2])
    elif k == 6:
        v = ch.n(256)
    elif k == 7:
        v = ch.of([0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x123456789abcdef0, 0xfedcba9876543210])
    elif k == 8 and bits >= 32:
        j = ch.n(3)
        if j == 2 and bits == 64:
            # around the end of the 32-bit ranges
            v = ch.of([0x80000000, 0xffffffff, 0x7fffffff, 0x100000000, -0x80000000, -0x80000001]) + ch.n(5) - 2
        else:
            # next to the middle of two neighbouring floating values (24 or 53 significant bits)
            p = 24 if j == 0 or bits == 32 else 53
            top = ch.of([bits, bits, bits - 1, ch.r(p + 1, bits)])
            s = top - p
            v = (((1 << (p - 1)) | ch.of([0, 1, 2, (1 << (p - 1)) - 1, ch.bits(p - 1)])) << s) + (1 << (s - 1) if s else 0) + ch.of([1, -1, 0])
            if signed and ch.n(2):
                v = -v
    else:
        v = ch.bits(bits)
    v &= (1 << bits) - 1
    if signed and v >> (bits - 1):
        v -= 1 << bits
    return v


def lit(v, t):
    """a literal of type t (after promotion to at least int unless cast)"""
    if t.name == '_Bool':
        return '((_Bool)%d)' % (v & 1)
    if t.size == 8:
        if not t.signed:
            return '%dull' % v
        if v == -(1 << 63):
            return '(-9223372036854775807ll - 1)'
        return '%dll' % v if v >= 0 else '(%dll)' % v
    if t.size == 4:
        suf = 'l' if 'long' in t.name else ''
        if not t.signed:
            return '%du%s' % (v, suf)
        if v == -(1 << 31):
            return '(-2147483647%s - 1)' % suf
        return '%d%s' % (v, suf) if v >= 0 else '(%d%s)' % (v, suf)
    return '((%s)%d)' % (t.name, v)


class Var:
    __slots__ = ('text', 't', 'group', 'lv', 'bf')

    def __init__(s, text, t, group=None, bf=0):
        s.text, s.t, s.group, s.bf = text, t, group or text, bf


CMP = ['<', '>', '<=', '>=', '==', '!=']


class IntGen:
    """noread/nowrite restrict which variables (groups) may be read/written so that no unsequenced conflict arises"""

    def __init__(self, ch, vars_, funcs=(), maxdepth=4):
        self.ch, self.vars, self.funcs, self.maxdepth = ch, vars_, funcs, maxdepth
        self.se = False      # side effects allowed
        self.tags = set()

    def readable(self, nr):
        return [v for v in self.vars if v.group not in nr]

    def leaf(self, nr):
        ch = self.ch
        vs = self.readable(nr)
        if vs and not ch.chance(1, 4):
            v = ch.of(vs)
            return v.text, v.t, {v.group}, set()
        t = ch.of(TYPES)
        v = bval(ch, t.size, t.signed)
        if t.rank < 3:
            if ch.chance(1, 2):
                return lit(v, t), t, set(), set()
            return lit(v, INT), INT, set(), set()
        return lit(v, t), t, set(), set()

    def seq2(self, d, nr, nw, n=2):
        """n unsequenced operands"""
        out = []
        R, W = set(), set()
        for _ in range(n):
            e = self.expr(d, nr | W, nw | R | W)
            out.append(e)
            R |= e[2]
            W |= e[3]
        return out, R, W

    def expr(self, d, nr=frozenset(), nw=frozenset()):
        nr, nw = set(nr), set(nw)
        ch = self.ch
        if d <= 0 or len(ch.rec) > ch.limit * 0.9:
            return self.leaf(nr)
        k = ch.n(40)
        if k < 6:
            return self.leaf(nr)
        if k < 16:
            op = ch.of(['+', '-', '*', '&', '|', '^'])
            (a, b), R, W = self.seq2(d - 1, nr, nw)
            return '(%s %s %s)' % (a[0], op, b[0]), usual(a[1], b[1]), R, W
        if k < 19:
            op = ch.of(['<<', '>>'])
            (a, b), R, W = self.seq2(d - 1, nr, nw)
            t = promote(a[1])
            w = t.size * 8
            if ch.chance(1, 2):
                return '(%s %s %d)' % (a[0], op, ch.n(w)), t, a[2] | R, W
            return '(%s %s (%s & %d))' % (a[0], op, b[0], w - 1), t, R, W
        if k < 22:
            op = ch.of(['/', '%'])
            kind = ch.n(3)
            if kind == 0:     # constant divisor
                a = self.expr(d - 1, nr, nw)
                t2 = ch.of([INT, UINT, LL, ULL, TY['unsigned char'], TY['short']])
                v = bval(ch, t2.size, t2.signed)
                if v in (0, -1):
                    v = 7
                return '(%s %s %s)' % (a[0], op, lit(v, t2)), usual(a[1], t2), a[2], a[3]
            (a, b), R, W = self.seq2(d - 1, nr, nw)
            t = usual(a[1], b[1])
            if not t.signed:
                return '(%s %s (%s | 1))' % (a[0], op, b[0]), t, R, W
            return '(%s %s ((%s & %d) | 1))' % (a[0], op, b[0], ch.of([0x7f, 0x7fff, 0x3])), t if usual(b[1], INT) is b[1] or True else t, R, W
        if k < 26:
            (a, b), R, W = self.seq2(d - 1, nr, nw)
            return '(%s %s %s)' % (a[0], ch.of(CMP), b[0]), INT, R, W
        if k < 28:
            op = ch.of(['&&', '||'])
            a = self.expr(d - 1, nr, nw)
            b = self.expr(d - 1, nr, nw)
            return '(%s %s %s)' % (a[0], op, b[0]), INT, a[2] | b[2], a[3] | b[3]
        if k < 30:
            c = self.expr(d - 1, nr, nw)
            a = self.expr(d - 1, nr, nw)
            b = self.expr(d - 1, nr, nw)
            return '(%s ? %s : %s)' % (c[0], a[0], b[0]), usual(a[1], b[1]), c[2] | a[2] | b[2], c[3] | a[3] | b[3]
        if k < 33:
            op = ch.of(['-', '~', '!', '+'])
            a = self.expr(d - 1, nr, nw)
            return '(%s%s)' % (op, a[0] if a[0][0] not in '+-' else '(' + a[0] + ')'), INT if op == '!' else promote(a[1]), a[2], a[3]
        if k < 36:
            t = ch.of(TYPES)
            a = self.expr(d - 1, nr, nw)
            return '((%s)%s)' % (t.name, a[0]), t, a[2], a[3]
        if k == 36 and self.funcs:
            f = ch.of(self.funcs)
            es, R, W = self.seq2(max(0, d - 2), nr, nw, len(f.args))
            return '%s(%s)' % (f.name, ', '.join(e[0] for e in es)), f.ret, R, W
        if k == 37 and self.se:
            a = self.expr(d - 1, nr, nw)
            b = self.expr(d - 1, nr, nw)
            return '(%s, %s)' % (a[0], b[0]), b[1], a[2] | b[2], a[3] | b[3]
        if self.se:
            vs = [v for v in self.vars if v.group not in nr and v.group not in nw]
            if vs:
                v = ch.of(vs)
                g = {v.group}
                if k == 38:
                    f = ch.of(['%s++', '%s--', '++%s', '--%s'])
                    if v.t.name == '_Bool':
                        f = '%s++' if '+' in f else '++%s'
                        if '-' in f:
                            f = '%s++'
                    self.tags.add('incdec')
                    return '(%s)' % (f % v.text), v.t, g, g
                return self.assign(v, d, nr, nw)
        return self.leaf(nr)

    def assign(self, v, d, nr, nw):
        ch = self.ch
        g = {v.group}
        op = ch.of(['=', '+=', '-=', '*=', '&=', '|=', '^=', '<<=', '>>=', '/=', '%='] if v.t.name != '_Bool' else ['=', '|=', '&=', '^='])
        # the right operand may read the variable (value computed before the store), not write it
        a = self.expr(d - 1, nr, nw | g)
        rhs = a[0]
        self.tags.add('compound assignment' if op != '=' else 'assignment')
        if op in ('<<=', '>>='):
            w = promote(v.t).size * 8
            rhs = '(%s & %d)' % (rhs, w - 1) if ch.chance(1, 2) else '%d' % ch.n(w)
        elif op in ('/=', '%='):
            t = usual(v.t, a[1])
            if v.t.rank < 3 and ch.chance(1, 2):      # promoted to int: no overflow possible
                t2 = ch.of(TYPES[:11])
                x = bval(ch, t2.size, t2.signed) or 3
                return '(%s %s %s)' % (v.text, op, lit(x, t2)), v.t, g, g
            rhs = '(%s | 1)' % rhs if not t.signed else '((%s & 0x7f) | 1)' % rhs
        return '(%s %s %s)' % (v.text, op, rhs), v.t, a[2] | g, a[3] | g


class Fn:
    def __init__(s, name, args, ret):
        s.name, s.args, s.ret = name, args, ret


def table(name, t, vals):
    return 'static %s %s[%d] = {%s};\n' % (t.name, name, len(vals), ', '.join(lit(v, t) for v in vals))


def gen_int(ch):
    nvec = ch.of([4, 8, 12])
    nv = ch.r(1, 5)
    decls = []
    body = []
    vars_ = []
    inits = []
    tags = set()
    # helper functions
    funcs = []
    for i in range(ch.n(3)):
        n = ch.r(1, 7)
        args = [ch.of(TYPES) for _ in range(n)]
        ret = ch.of(TYPES)
        sub = IntGen(ch, [Var('p%d' % j, a) for j, a in enumerate(args)])
        e = sub.expr(2)
        nm = 'f@_%d' % i
        decls.append('static %s %s(%s){ return (%s)%s; }\n' % (ret.name, nm, ', '.join('%s p%d' % (a.name, j) for j, a in enumerate(args)), ret.name, e[0]))
        funcs.append(Fn(nm, args, ret))
    for i in range(nv):
        t = ch.of(TYPES)
        vals = [bval(ch, t.size, t.signed) if t.name != '_Bool' else ch.n(2) for _ in range(nvec)]
        decls.append(table('in@_%d' % i, t, vals))
        kind = ch.n(6)
        if kind <= 1:
            body.append('  %s v%d = in@_%d[k];' % (t.name, i, i))
            vars_.append(Var('v%d' % i, t))
        elif kind == 2:
            decls.append('static %s g@_%d;\n' % (t.name, i))
            body.append('  g@_%d = in@_%d[k];' % (i, i))
            vars_.append(Var('g@_%d' % i, t))
        elif kind == 3:
            n = ch.r(1, 3)
            pad = ch.of(['', 'char c;', 'char c[300];', 'long long q;'])
            body.append('  struct { %s %s m; %s } s%d; s%d.m = in@_%d[k];' % (pad, t.name, ch.of(['', 'char d;', 'int z[40];']), i, i, i))
            if ch.chance(1, 2):
                body.append('  void *ps%d = &s%d;' % (i, i))
            vars_.append(Var('s%d.m' % i, t))
        elif kind == 4:
            n = ch.r(2, 9)
            ix = ch.n(n)
            ixt = ch.of(TYPES[:11])
            body.append('  %s a%d[%d]; %s i%d = %d; a%d[i%d] = in@_%d[k];' % (t.name, i, n, ixt.name, i, ix, i, i, i))
            vars_.append(Var(ch.of(['a%d[i%d]', '(*(a%d + i%d))', '(*(&a%d[i%d] + 0))']) % (i, i), t))
        else:
            body.append('  %s w%d = in@_%d[k]; %s *p%d = &w%d;' % (t.name, i, i, t.name, i, i))
            vars_.append(Var(ch.of(['(*p%d)', 'p%d[0]', '(*&*p%d)', '(*(p%d - 0))']) % i, t))
    if ch.chance(1, 6):
        body.insert(0, '  char pad0[%d]; pad0[0] = 1;' % ch.of([100, 130, 1000, 5000]))
        tags.add('large frame')
    g = IntGen(ch, vars_, funcs)
    depth = ch.of([2, 3, 4, 5])
    nst = ch.r(1, 4)
    nops = 0
    for s in range(nst):
        g.se = ch.chance(1, 3)
        kind = ch.n(12)
        if kind < 4:
            e = g.expr(depth)
            body.append('  h_log((u64)%s);' % e[0])
        elif kind == 4:
            e = g.expr(depth)
            body.append('  if (%s) h_log(1); else h_log(2);' % e[0])
        elif kind == 5:
            e = g.expr(depth)
            body.append('  { int n = 0; while (%s) { if (++n > 3) break; } h_log(n); }' % e[0])
        elif kind == 6:
            t = ch.of(TYPES)
            e = g.expr(depth)
            body.append('  { %s r = %s; h_log((u64)r); }' % (t.name, e[0]))
        elif kind == 7:
            g.se = False
            e = g.expr(depth)
            body.append('  h_log(sizeof(%s)); h_log(_Generic(%s, char: 1, signed char: 2, unsigned char: 3, short: 4, unsigned short: 5, int: 6, unsigned: 7, LONG_ASSOC long long: 10, unsigned long long: 11, default: 12));' % (e[0], '(' + e[0] + ')+0'))
            tags.add('type of expression')
        elif kind == 8:
            v = ch.of(vars_)
            g.se = True
            e = g.assign(v, depth, set(), set())
            body.append('  %s;' % e[0])
            body.append('  h_log((u64)%s);' % v.text)
        elif kind == 9:       # long chain, many live temporaries
            n = ch.r(5, 24)
            g.se = False
            es = [g.expr(1) for _ in range(n)]
            x = es[0][0]
            for e in es[1:]:
                o = ch.of(['+', '-', '^', '&', '|', '*'])
                x = '(%s %s %s)' % ((e[0], o, x) if ch.chance(1, 2) else (x, o, e[0]))
            body.append('  h_log((u64)%s);' % x)
            tags.add('long chain')
        elif kind == 10:      # pointers
            t = ch.of([x for x in TYPES if x.name != '_Bool'])
            n = ch.r(3, 20)
            i1, i2 = ch.n(n), ch.n(n)
            nm = 'pa%d' % s
            it = ch.of(TYPES[:11])
            body.append('  { %s %s[%d]; for (int i = 0; i < %d; i++) %s[i] = (%s)(i * 3 + (int)%s); %s x = %d; %s *p = %s + x; %s *q = &%s[%d]; h_log((u64)(p - q)); h_log((u64)*p); h_log(p < q); h_log(p == q); h_log(p >= q); h_log(p != 0); h_log(!p); p %s; h_log((u64)(p - %s)); h_log((u64)((char *)p - (char *)%s)); q = p%s; h_log((u64)(q - %s)); h_log((u64)(p - %s)); }'
                        % (t.name, nm, n, n, nm, t.name, ch.of(vars_).text, it.name, i1, t.name, nm, t.name, nm, i2,
                           ch.of(['+= 1 - x + %d' % ch.n(n), '-= x', '= (x + p) - x', '= &p[-(int)x]', '= p + 1 - 1']) if it.signed or True else '', nm, nm, ch.of(['++', '--']), nm, nm))
            tags.add('pointer arithmetic')
        else:
            g.se = True
            e = g.expr(depth)
            f = g.expr(2)
            body.append('  h_log((u64)(%s));' % ch.of(['{e} ? {f} : 77', '{e} && {f}', '{e} || {f}', '!{e}', '!!{e}', '{e} , {f}']).format(e=e[0], f=f[0]))
        nops += 1
    for v in vars_:
        body.append('  h_log((u64)%s);' % v.text)
    text = 'for (int k = 0; k < %d; k++) {\n%s\n}' % (nvec, '\n'.join(body))
    c = Case(''.join(decls), text, nontrivial=text.count('(') > 8, tags=sorted(tags | g.tags))
    return c


class IntWorker(DiffWorker):
    # hlc knows one type for int and long
    prelude = PRELUDE + '#ifdef __clang__\n#define LONG_ASSOC long: 6, unsigned long: 7,\n#else\n#define LONG_ASSOC\n#endif\n'

    def gen(self, ch):
        return gen_int(ch)
