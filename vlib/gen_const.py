"""C04: constant evaluation. Expressions carry their value (reference model in Python) and a second spelling whose
operands are volatile variables, so that the run-time evaluation is compared too."""
import math
from .core import *
from .diff import *
from .gen_int import TYPES, TY, INT, UINT, LL, ULL, bval, lit, usual, promote
from .gen_float import F32, F64, isf, usualf, struct

IT = [TY[n] for n in ('int', 'unsigned int', 'long long', 'unsigned long long', 'char', 'unsigned char', 'short', 'unsigned short', '_Bool', 'signed char')]
GENERIC = [('_Bool', 1), ('char', 2), ('unsigned char', 4), ('short', 5), ('unsigned short', 6), ('int', 7), ('unsigned int', 8), ('long long', 9), ('unsigned long long', 10), ('float', 11), ('double', 12)]
GID = dict(GENERIC)


def wrap(v, t):
    if t.name == '_Bool':
        return int(v != 0)
    b = t.size * 8
    v &= (1 << b) - 1
    if t.signed and v >> (b - 1):
        v -= 1 << b
    return v


def f32(x):
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return math.inf if x > 0 else -math.inf


class Bad(Exception):
    """the expression would be undefined"""


def fits(v, t):
    b = t.size * 8
    return -(1 << (b - 1)) <= v < (1 << (b - 1)) if t.signed else True


def convert(v, f, t):
    if isf(t):
        x = float(v) if not isf(f) else v
        if t is F32:
            if not isf(f):      # direct conversion of integers to float, rounding once
                x = int_to_f32(v)
            else:
                x = f32(x)
        return x
    if isf(f):
        if t.name == '_Bool':
            return int(v != 0)
        if v != v or math.isinf(v):
            raise Bad()
        i = int(v)
        if wrap(i, t) != i:
            raise Bad()
        return i
    return wrap(v, t)


def int_to_f32(v):
    s, a = (-1, -v) if v < 0 else (1, v)
    n = a.bit_length()
    if n > 24:
        sh = n - 24
        q, r = a >> sh, a & ((1 << sh) - 1)
        h = 1 << (sh - 1)
        if r > h or r == h and q & 1:
            q += 1
        a = q << sh
    return float(s * a)


class E:
    __slots__ = ('c', 'r', 't', 'v', 'ice')

    def __init__(s, c, r, t, v, ice=True):
        s.c, s.r, s.t, s.v, s.ice = c, r, t, v, ice       # constant text, run-time text, type, value, integer constant expression


class ConstGen:
    def __init__(self, ch, floats=True, pp=False):
        self.ch, self.floats, self.pp = ch, floats, pp
        self.vars = []
        self.tags = set()
        self.ops = 0

    def leaf(self, t=None):
        ch = self.ch
        if self.pp:
            t = ch.of([LL, LL, ULL])
            k = ch.n(10)
            if k == 0:
                n = ch.of(["'a'", "'\\n'", "'\\x7f'", "'\\0'", "'0'"])
                return E(n, n, LL, {"'a'": 97, "'\\n'": 10, "'\\x7f'": 127, "'\\0'": 0, "'0'": 48}[n])
            if k == 1:
                n = ch.of(['defined PPD@', 'defined(PPD@)', 'defined PPU@', 'defined(PPU@)'])
                return E(n, n, LL, int('PPD' in n))
            if k == 2:
                n = ch.of(['PPU@', 'undeclared_name', 'PPV@', '(PPV@)', 'PPF@(2)', 'PPF@(PPV@)'])
                v = {'PPU@': 0, 'undeclared_name': 0, 'PPV@': 42, '(PPV@)': 42, 'PPF@(2)': 5, 'PPF@(PPV@)': 85}[n]
                return E(n, n, LL, v)
            v = bval(ch, 8, t.signed)
            if t.signed and v < 0:
                v = -(v + 1)
            suf = ch.of(['', '', 'l', 'll', 'L', 'LL']) if t.signed else ch.of(['u', 'ull', 'ULL', 'Ull'])
            s = ch.of(['%d', '%d', '0x%x', '0%o', '0b{0:b}'])
            s = s.format(v) if '{' in s else (s % v if v else '0')
            if t.signed and s[0] == '0' and v >= 1 << 63:
                return E('1', '1', LL, 1)
            return E(s + suf, s + suf, t, v)
        if t is None:
            if self.floats and ch.n(4) == 0:
                t = ch.of([F64, F32])
            else:
                t = ch.of(IT)
        if isf(t):
            s = ch.of(['1.0', '0.5', '2.0', '3.25', '0.1', '1e10', '100.0', '0.0', '7.0', '1e-3', '255.0', '16777217.0', '123456789.0'])
            if t is F32:
                v = f32(float(s))
                return self.var(s + 'f', t, v)
            return self.var(s, t, float(s))
        v = bval(ch, t.size, t.signed)
        if t.name == '_Bool':
            v &= 1
        k = ch.n(12)
        if k == 0:
            self.tags.add('enumerator')
            v = ch.n(7)
            v = [0, 1, 100, -5, 2147483647, -2147483648, 77][v]
            return self.var('K@_%s' % {0: 'a', 1: 'b', 100: 'c', -5: 'd', 2147483647: 'e', -2147483648: 'f', 77: 'g'}[v], INT, v)
        if k == 1:
            self.tags.add('sizeof')
            n, v = ch.of([('sizeof(int)', 4), ('sizeof(short[7])', 14), ('sizeof(KS@)', 24), ('sizeof(((KS@ *)0)->b)', 12), ('sizeof("abc")', 4), ('_Alignof(KS@)', 8), ('sizeof(1 + 1ll)', 8), ("sizeof('a')", 4), ('sizeof(KS@[3])', 72)])
            return self.var(n, ULL, v)
        if k == 2:
            n, v = ch.of([("'a'", 97), ("'\\n'", 10), ("'\\xff'", -1), ("'\\0'", 0), ("L'x'", 120)])
            return self.var(n, TY['unsigned short'] if n[0] == 'L' else INT, v)
        return self.var(lit(v, t), t if t.rank >= 3 or t.name == '_Bool' or '(' in lit(v, t) else t, v)

    def var(self, text, t, v):
        n = 'v%d' % len(self.vars)
        self.vars.append((n, t, text))
        return E(text, n, t, v, not isf(t))

    def conv(self, e, t):
        return convert(e.v, e.t, t)

    def expr(self, d):
        for _ in range(6):
            try:
                return self.expr1(d)
            except Bad:
                continue
        return self.leaf(INT)

    def expr1(self, d):
        ch = self.ch
        if d <= 0 or ch.n(6) == 0:
            return self.leaf()
        k = ch.n(14)
        self.ops += 1
        if k < 5 or (self.pp and k == 5):
            a, b = self.expr(d - 1), self.expr(d - 1)
            op = ch.of(['+', '-', '*', '/', '%', '&', '|', '^'])
            t = usualf(a.t, b.t)
            if isf(t) and op in '%&|^':
                op = '+'
            x, y = self.conv(a, t), self.conv(b, t)
            if isf(t):
                if op == '/' and y == 0:
                    raise Bad()
                try:
                    v = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y}[op]()
                except OverflowError:
                    raise Bad()
                if t is F32:
                    v = f32(v)
                if v != v or math.isinf(v) or abs(v) < 1e-30 and v or v == 0 and math.copysign(1, v) < 0:
                    raise Bad()
            else:
                if op in '/%' and y == 0:
                    raise Bad()
                if op == '+': v = x + y
                elif op == '-': v = x - y
                elif op == '*': v = x * y
                elif op == '&': v = x & y
                elif op == '|': v = x | y
                elif op == '^': v = x ^ y
                else:
                    q = abs(x) // abs(y)
                    if (x < 0) != (y < 0):
                        q = -q
                    v = q if op == '/' else x - q * y
                    if op == '%' and not fits(q, t):
                        raise Bad()
                if t.signed and not fits(v, t):
                    raise Bad()
                v = wrap(v, t)
            return E('(%s %s %s)' % (a.c, op, b.c), '(%s %s %s)' % (a.r, op, b.r), t, v, a.ice and b.ice)
        if k == 5:
            # cast
            e = self.expr(d - 1)
            t = ch.of(IT + [F32, F64] if self.floats else IT)
            v = convert(e.v, e.t, t)
            self.tags.add('cast')
            if isf(e.t) and not isf(t) and not t.signed and e.v <= 0:
                raise Bad()     # (a documented error of hlc)
            return E('((%s)%s)' % (t.name, e.c), '((%s)%s)' % (t.name, e.r), t, v, not isf(t) and not isf(e.t) and e.ice)
        if k == 6:
            a, b = self.expr(d - 1), self.expr(d - 1)
            if isf(a.t) or isf(b.t):
                raise Bad()
            t = a.t if self.pp else promote(a.t)
            op = ch.of(['<<', '>>'])
            n = b.v
            ns = None
            if not 0 <= n < t.size * 8:
                b = E('(%s & %d)' % (b.c, t.size * 8 - 1), '(%s & %d)' % (b.r, t.size * 8 - 1), usual(b.t, INT) if not self.pp else b.t, wrap(b.v, b.t) & (t.size * 8 - 1), b.ice)
                n = b.v
            v = a.v << n if op == '<<' else a.v >> n
            if t.signed and op == '<<' and (a.v < 0 or not fits(v, t)):
                raise Bad()
            return E('(%s %s %s)' % (a.c, op, b.c), '(%s %s %s)' % (a.r, op, b.r), t, wrap(v, t), a.ice and b.ice)
        if k < 9:
            a, b = self.expr(d - 1), self.expr(d - 1)
            op = ch.of(['<', '>', '<=', '>=', '==', '!='])
            t = usualf(a.t, b.t)
            x, y = self.conv(a, t), self.conv(b, t)
            v = int({'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y, '==': x == y, '!=': x != y}[op])
            return E('(%s %s %s)' % (a.c, op, b.c), '(%s %s %s)' % (a.r, op, b.r), LL if self.pp else INT, v, a.ice and b.ice)
        if k == 9:
            a, b = self.expr(d - 1), self.expr(d - 1)
            op = ch.of(['&&', '||'])
            v = int(bool(a.v) and bool(b.v)) if op == '&&' else int(bool(a.v) or bool(b.v))
            if self.pp and ch.n(4) == 0 and bool(a.v) == (op == '||'):     # (outside of #if hlc diagnoses every division by a literal zero)
                self.tags.add('unevaluated division by zero')
                z = '(1 / 0)' if ch.n(2) else '(5 %% (%s - %s))' % ('3', '3')
                return E('(%s %s %s)' % (a.c, op, z), '(%s %s %s)' % (a.r, op, b.r), LL if self.pp else INT, v, a.ice)
            return E('(%s %s %s)' % (a.c, op, b.c), '(%s %s %s)' % (a.r, op, b.r), LL if self.pp else INT, v, a.ice and b.ice)
        if k == 10:
            c, a, b = self.expr(d - 1), self.expr(d - 1), self.expr(d - 1)
            t = usualf(a.t, b.t)
            if (a.t is b.t) and a.t.rank < 3:
                t = INT
            v = self.conv(a if c.v else b, t)
            self.tags.add('conditional')
            return E('(%s ? %s : %s)' % (c.c, a.c, b.c), '(%s ? %s : %s)' % (c.r, a.r, b.r), t, v, a.ice and b.ice and c.ice)
        e = self.expr(d - 1)
        op = ch.of(['-', '~', '!', '+'])
        if op == '!':
            return E('(!%s)' % e.c, '(!%s)' % e.r, LL if self.pp else INT, int(not e.v), e.ice)
        t = e.t if self.pp or isf(e.t) else promote(e.t)
        if isf(t) and (op == '~' or op == '-' and e.v == 0):
            op = '+'
        v = {'-': -e.v, '~': ~e.v if not isf(t) else 0, '+': e.v}[op]
        if not isf(t):
            if t.signed and not fits(v, t):
                raise Bad()
            v = wrap(v, t)
        sp = ' ' if e.c[0] in '-+' else ''
        sr = ' ' if e.r[0] in '-+' else ''
        return E('(%s%s%s)' % (op, sp, e.c), '(%s%s%s)' % (op, sr, e.r), t, v, e.ice)


KDECL = ('enum { K@_a, K@_b, K@_c = 100, K@_d = -5, K@_e = 2147483647, K@_f = -2147483647 - 1, K@_g = 70 + 7 }; typedef struct { int a; short b[6]; double c; } KS@;\n')


def log(e, t):
    if isf(t):
        return 'h_f32(%s);' % e if t is F32 else 'h_f64(%s);' % e
    return 'h_log((u64)%s);' % e


def text_of(v, t):
    """expected value as text for _Static_assert"""
    return lit(v, t if t.rank >= 3 else INT)


def gen_const(ch):
    decls, body = [KDECL], []
    tags = set()
    nops = 0
    expect = []
    for i in range(ch.r(1, 4)):
        if ch.n(4) == 0:
            # preprocessor
            g = ConstGen(ch, False, True)
            e = g.expr(ch.r(1, 4))
            nops += g.ops
            tags.add('#if')
            tags |= g.tags
            if 'PPD@' not in ''.join(decls):
                decls.append('\n#define PPD@\n#define PPV@ 42\n#define PPF@(x) (2 * (x) + 1)\n')
            val = '%du' % e.v if not e.t.signed else ('%d' % e.v if e.v != -(1 << 63) else '(-9223372036854775807 - 1)')
            k = ch.n(3)
            if k == 0:
                body.append('\n#if %s\nh_log(1);\n#else\nh_log(0);\n#endif\n' % e.c)
                expect.append(int(bool(e.v)))
            elif k == 1:
                body.append('\n#if 0\n#elif (%s) == (%s)\nh_log(1);\n#else\nh_log(0);\n#endif\n' % (e.c, val))
                expect.append(1)
            else:
                n = e.v & 7
                body.append('\n' + ''.join('#%s ((%s) & 7) == %d\nh_log(%d);\n' % ('elif' if j else 'if', e.c, j, j) for j in range(8)) + '#endif\n')
                expect.append(n)
            continue
        g = ConstGen(ch, ch.n(3) == 0)
        e = g.expr(ch.r(1, 5))
        nops += g.ops
        tags |= g.tags
        r = e.r
        decl_vars = ' '.join('volatile %s %s = %s;' % (t.name, n, x) for n, t, x in g.vars)
        # run-time
        body.append('{ %s %s %s x = %s; %s' % (decl_vars, log(r, e.t), e.t.name, r, log('x', e.t)))
        expect += [e.v, e.v]
        body.append('h_log(sizeof(%s)); h_log(_Generic(%s, default: 2, %s));' % (e.c, e.c, ', '.join('%s: %d' % ab for ab in GENERIC if ab[0] != 'char')))
        expect += [e.t.size, GID.get(e.t.name, 2)]
        uses = set()
        for _ in range(ch.r(1, 4)):
            u = ch.n(10)
            if u in uses:
                continue
            uses.add(u)
            if u == 0 or u == 1:
                t = ch.of([e.t, e.t, ch.of(IT)])
                if isf(e.t):
                    t = ch.of([F32, F64])
                elif ch.n(6) == 0:
                    t = ch.of([F32, F64])
                v = convert(e.v, e.t, t)
                tags.add('static initialiser')
                if u == 0:
                    decls.append('static %s g@_%d_%d = %s;\n' % (t.name, i, len(expect), e.c))
                    body.append(log('g@_%d_%d' % (i, len(expect)), t))
                else:
                    body.append('static %s l%d = %s; %s' % (t.name, len(expect), e.c, log('l%d' % len(expect), t)))
                expect.append(v)
                continue
            if u == 2:
                tags.add('folded in code')
                t = e.t
                body.append('%s y%d = %s; %s' % (t.name, len(expect), e.c, log('y%d' % len(expect), t)))
                expect.append(e.v)
                continue
            if u == 3:
                body.append('if(%s) h_log(1); else h_log(0);' % e.c)
                expect.append(int(bool(e.v)))
                continue
            if not e.ice:
                continue
            if u == 4:
                tags.add('array size')
                n = (e.v & 63) + 1
                body.append('{ char arr[((%s) & 63) + 1]; h_log(sizeof(arr)); }' % e.c)
                expect.append(n)
            elif u == 5 and -(1 << 31) <= e.v < 1 << 31:
                tags.add('enumerator value')
                decls.append('enum { Z@_%d = %s, ZZ@_%d%s };\n' % (len(expect), e.c, len(expect), '' if e.v < (1 << 31) - 1 else ' = 1'))
                body.append('h_log((u64)(s64)Z@_%d); h_log((u64)(s64)ZZ@_%d);' % (len(expect), len(expect)))
                expect += [e.v, e.v + 1 if e.v < (1 << 31) - 1 else 1]
            elif u == 6:
                tags.add('case label')
                t = promote(e.t)
                other = wrap(e.v + 1, t)
                body.append('{ volatile %s w = %s; switch(w){ case %s: h_log(2); break; case %s: h_log(1); break; default: h_log(0); } }' % (t.name, text_of(e.v, t), lit(other, t), e.c))
                expect.append(1)
            elif u == 7:
                tags.add('bit-field width')
                n = (e.v & 31) + 1
                body.append('{ struct { unsigned int b : ((%s) & 31) + 1; } s; s.b = 0xffffffffu; h_log(s.b); }' % e.c)
                expect.append((1 << n) - 1)
            elif u == 8:
                tags.add('_Static_assert')
                t = promote(e.t)
                body.append('_Static_assert((%s) == %s, "wrong");' % (e.c, text_of(e.v, t)))
                if ch.n(2):
                    body.append('_Static_assert(!((%s) != %s), "wrong");' % (e.c, text_of(e.v, t)))
            else:
                tags.add('designator')
                n = e.v & 7
                body.append('{ static char d[8] = { [(%s) & 7] = 1 }; for(int i = 0; i < 8; i++) if(d[i]) h_log(i); }' % e.c)
                expect.append(n)
        body.append('}')
    if ch.n(3) == 0:
        # constant pointers
        tags.add('constant pointer')
        for _ in range(ch.r(1, 3)):
            ty, sz = ch.of([('int', 4), ('char', 1), ('short', 2), ('double', 8), ('KS@', 24), ('int *', 8), ('short (*)[3]', None)])
            st = '*' if sz else ''
            ptr = '(%s *)' % ty if sz else '(short (*)[3])'
            sz = sz or 6
            a, b, k = ch.n(0x10000), ch.n(0x10000), ch.n(200)
            a *= sz
            b *= sz
            f = ch.n(6)
            if f == 0:
                x, v = '(u64)(%s%d + %d)' % (ptr, a, k), a + k * sz
            elif f == 1:
                x, v = '(u64)(%s%d - %d)' % (ptr, a + k * sz, k), a
            elif f == 2:
                x, v = '(u64)(s64)(%s%d - %s%d)' % (ptr, a, ptr, b), ((a - b) // sz) & (1 << 64) - 1
            elif f == 3:
                x, v = '(u64)&(%s%d)[%d]' % (ptr, a, k), a + k * sz
            elif f == 4:
                x, v = '(u64)&((KS@ *)%d)->%s' % (a, ch.of(['b[3]'])), a + 4 + 6
            else:
                x, v = '(u64)(%s%d %s %s%d)' % (ptr, a, '<', ptr, b), int(a < b)
            if ch.n(2) and f < 2:
                body.append('{ static u64 cp = %s; h_log(cp); }' % x)
            else:
                body.append('h_log(%s);' % x)
            expect.append(v)
    c = Case(''.join(decls), ' '.join(body), nontrivial=nops >= 2, tags=sorted(tags))
    c.max = expect
    return c


def enc(v):
    return v


class ConstWorker(DiffWorker):
    max_log = 100
    clang_opt = '-O0'
    clang_flags = ('-Wno-everything',)

    def gen(self, ch):
        return gen_const(ch)

    def compare(self, case, a, b):
        d = super().compare(case, a, b)
        if d:
            return d
        # both agree: the model has to agree as well
        exp = case.max
        if len(exp) != a.total:
            return None
        for x, y in zip(exp, a.vals):
            if isinstance(x, float):
                if y not in (struct.unpack('<Q', struct.pack('<d', x))[0], struct.unpack('<I', struct.pack('<f', x))[0] if abs(x) < 3.4e38 else -1):
                    return 'hlc and clang differ from the model: %r, expected %r' % (y, x)
            elif y != x & ((1 << 64) - 1):
                return 'hlc and clang differ from the model: %r, expected %r' % (y, x)
        return None
