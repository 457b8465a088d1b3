"""C02: floating point expressions and conversions."""
from .core import *
from .diff import *
from .gen_int import TYPES, TY, INT, UINT, LL, ULL, mk, promote, usual, bval, lit, T
import struct

F32 = T('float', 4, 1, 10)
F64 = T('double', 8, 1, 11)
FT = [F64, F32]
IT = [TY[n] for n in ('int', 'unsigned int', 'long long', 'unsigned long long', 'char', 'unsigned char', 'short', 'unsigned short', '_Bool')]

SPECIAL = ['1.0', '0.0', '-0.0', '0.5', '-1.5', '2.0', '3.0', '0.1', '1e10', '-1e-10', '123456.789', '16777217.0', '4294967296.0', '4294967295.0', '2147483648.0', '9007199254740993.0', '1e300', '-1e300', '1e-300', '4.9e-324', '2.2250738585072014e-308', '1e38', '3.4028234663852886e38', '1.17549435e-38', '1e-45', '0.33333333333333331', '-7.25']


def fval(ch):
    k = ch.n(10)
    if k < 4:
        return ch.of(SPECIAL)
    if k == 4:
        return '%d.0' % (ch.n(2001) - 1000)
    if k == 5:
        return repr((ch.n(200001) - 100000) / ch.of([2, 4, 8, 10, 100, 3]))
    if k == 6:      # random magnitude
        return repr((ch.n(65536) + 1) * 10.0 ** (ch.n(61) - 30) * (1 - 2 * ch.n(2)))
    if k == 7:
        b = ch.bits(64)
        v = struct.unpack('<d', struct.pack('<Q', b))[0]
        if v != v or abs(v) == float('inf'):
            return '1.25'
        return '%.17e' % v
    if k == 8:
        return ch.of(['INF', '-INF', 'NAN'])
    return repr(struct.unpack('<f', struct.pack('<I', ch.bits(32) & 0xff7fffff))[0])


def flit(ch, v, t):
    """a literal of type t"""
    if 'INF' in v or 'NAN' in v:
        return '((%s)%s)' % (t.name, v)
    neg = v.startswith('-')
    s = v.lstrip('-')
    if '.' not in s and 'e' not in s:
        s += '.0'
    if t is F32:
        x = float(s)
        if x > 3.4e38:
            s = '3e38'
        elif x and x < 1.2e-38:
            s = '2e-38'
        s += 'f'
    return '(-%s)' % s if neg else s


def isf(t):
    return t.rank >= 10


def usualf(a, b):
    if a is F64 or b is F64:
        return F64
    if a is F32 or b is F32:
        return F32
    return usual(a, b)


class FV:
    __slots__ = ('text', 't', 'group')

    def __init__(s, text, t):
        s.text, s.t, s.group = text, t, text


RANGE = {'int': ('-2147483648.0', '2147483000.0'), 'unsigned int': ('0.0', '4294967000.0'), 'long long': ('-9223372036854775808.0', '9223371036854775808.0'), 'unsigned long long': ('0.0', '18446742974197923840.0'),
         'char': ('-128.0', '127.0'), 'unsigned char': ('0.0', '255.0'), 'short': ('-32768.0', '32767.0'), 'unsigned short': ('0.0', '65535.0')}


class FloatGen:
    def __init__(self, ch, vars_, funcs):
        self.ch, self.vars, self.funcs = ch, vars_, funcs
        self.tags = set()

    def leaf(self, nr, want=None):
        ch = self.ch
        vs = [v for v in self.vars if v.group not in nr and (want is None or isf(v.t) == want)]
        if vs and not ch.chance(1, 4):
            v = ch.of(vs)
            return v.text, v.t, {v.group}, set()
        if want is False or (want is None and ch.chance(1, 4)):
            t = ch.of(IT[:4])
            return lit(bval(ch, t.size, t.signed), t), t, set(), set()
        t = ch.of(FT)
        return flit(ch, fval(ch), t), t, set(), set()

    def seq2(self, d, nr, nw, wants):
        out, R, W = [], set(), set()
        for w in wants:
            e = self.expr(d, w, nr | W, nw | R | W)
            out.append(e)
            R |= e[2]
            W |= e[3]
        return out, R, W

    def intsrc(self, t, d, nr, nw):
        """floating expression to be converted to t; a negative constant may not be converted to an unsigned type (documented error)"""
        if t.signed or t.name == '_Bool':
            return self.expr(d, True, nr, nw)
        ch = self.ch
        vs = [v for v in self.vars if isf(v.t) and v.group not in nr]
        if not vs:
            return '1.5', F64, set(), set()
        v = ch.of(vs)
        k = ch.n(3)
        if k == 0:
            return v.text, v.t, {v.group}, set()
        o = ch.of(FT)
        x = flit(ch, fval(ch), o)
        return '(%s %s %s)' % ((v.text, ch.of(['+', '-', '*']), x) if k == 1 else (x, ch.of(['+', '-', '*']), v.text)), usualf(v.t, o), {v.group}, set()

    def toint(self, e, t, rw):
        """cast of a floating expression, kept in range"""
        x = e[0]
        if t.name == '_Bool':
            return '((_Bool)%s)' % x
        lo, hi = RANGE[t.name]
        if e[1] is F32 and t.size == 4:
            hi = {'int': '2147482000.0', 'unsigned int': '4294966000.0'}[t.name]
        self.tags.add('float to integer')
        return '(%s >= %s && %s <= %s ? (%s)%s : (%s)%d)' % (x, lo, x, hi, t.name, x, t.name, self.ch.n(3))

    def expr(self, d, want=None, nr=frozenset(), nw=frozenset()):
        """want: True floating, False integer, None either"""
        nr, nw = set(nr), set(nw)
        ch = self.ch
        if d <= 0 or len(ch.rec) > 5000:
            return self.leaf(nr, want)
        k = ch.n(32)
        if want is False:
            if k < 8:
                return self.leaf(nr, False)
            if k < 18:
                w = ch.of([(True, True), (True, None), (None, True)])
                (a, b), R, W = self.seq2(d - 1, nr, nw, w)
                return '(%s %s %s)' % (a[0], ch.of(['<', '>', '<=', '>=', '==', '!=']), b[0]), INT, R, W
            if k < 22:
                op = ch.of(['&&', '||'])
                a = self.expr(d - 1, True, nr, nw)
                b = self.expr(d - 1, None, nr, nw)
                return '(%s %s %s)' % (a[0], op, b[0]), INT, a[2] | b[2], a[3] | b[3]
            if k < 24:
                a = self.expr(d - 1, True, nr, nw)
                return '(!%s)' % a[0], INT, a[2], a[3]
            if k < 30:
                t = ch.of(IT)
                a = self.intsrc(t, min(d - 1, 1), nr, set(self.allg()))
                return self.toint(a, t, None), t, a[2], a[3]
            (a, b), R, W = self.seq2(d - 1, nr, nw, (False, False))
            return '(%s %s %s)' % (a[0], ch.of(['+', '-', '*', '&']), b[0]), usual(a[1], b[1]), R, W
        if k < 4:
            return self.leaf(nr, want)
        if k < 16:
            op = ch.of(['+', '-', '*', '/'])
            w = ch.of([(True, True), (True, True), (True, False), (False, True)])
            (a, b), R, W = self.seq2(d - 1, nr, nw, w)
            return '(%s %s %s)' % (a[0], op, b[0]), usualf(a[1], b[1]), R, W
        if k < 19:
            t = ch.of(FT)
            a = self.expr(d - 1, None, nr, nw)
            self.tags.add('conversion')
            return '((%s)%s)' % (t.name, a[0]), t, a[2], a[3]
        if k < 21:
            a = self.expr(d - 1, True, nr, nw)
            return '(%s%s)' % (ch.of(['-', '-', '+']), a[0] if a[0][0] not in '+-' else '(%s)' % a[0]), a[1], a[2], a[3]
        if k < 24:
            c = self.expr(d - 1, None, nr, nw)
            a = self.expr(d - 1, True, nr, nw)
            b = self.expr(d - 1, True if not ch.chance(1, 4) else None, nr, nw)
            return '(%s ? %s : %s)' % (c[0], a[0], b[0]), usualf(a[1], b[1]), c[2] | a[2] | b[2], c[3] | a[3] | b[3]
        if k < 27 and self.funcs:
            f = ch.of(self.funcs)
            args, R, W = self.seq2(max(0, d - 2), nr, nw, [isf(a) for a in f.args])
            self.tags.add('call')
            return '%s(%s)' % (f.name, ', '.join(a[0] for a in args)), f.ret, R, W
        if k == 27:
            a = self.expr(d - 1, None, nr, nw)
            b = self.expr(d - 1, True, nr, nw)
            return '(%s, %s)' % (a[0], b[0]), b[1], a[2] | b[2], a[3] | b[3]
        if k >= 28:
            vs = [v for v in self.vars if isf(v.t) and v.group not in nr and v.group not in nw]
            if vs:
                v = ch.of(vs)
                g = {v.group}
                if k == 28:
                    self.tags.add('incdec')
                    return '(%s)' % (ch.of(['%s++', '%s--', '++%s', '--%s']) % v.text), v.t, g, g
                return self.assign(v, d, nr, nw)
        return self.leaf(nr, want)

    def allg(self):
        return [v.group for v in self.vars]

    def assign(self, v, d, nr, nw):
        ch = self.ch
        g = {v.group}
        if isf(v.t):
            op = ch.of(['=', '+=', '-=', '*=', '/='])
            a = self.expr(d - 1, True if ch.chance(2, 3) else None, nr, nw | g)
            self.tags.add('assignment')
            return '(%s %s %s)' % (v.text, op, a[0]), v.t, a[2] | g, a[3] | g
        # integer variable, floating right side: in range by construction
        a = self.intsrc(v.t, 1, nr, set(self.allg()))
        x = self.toint(a, v.t, None)
        return '(%s = %s)' % (v.text, x), v.t, a[2] | g, a[3] | g


class Fn:
    def __init__(s, name, args, ret):
        s.name, s.args, s.ret = name, args, ret


def gen_float(ch):
    nvec = ch.of([4, 8])
    decls, body, vars_ = [], [], []
    tags = set()
    funcs = []
    for i in range(ch.n(3)):
        args = [ch.of(FT + FT + [INT, ULL, TY['unsigned int']]) for _ in range(ch.r(1, 7))]
        ret = ch.of(FT)
        sub = FloatGen(ch, [FV('p%d' % j, a) for j, a in enumerate(args)], [])
        e = sub.expr(2, True)
        decls.append('static %s f@_%d(%s){ return %s; }\n' % (ret.name, i, ', '.join('%s p%d' % (a.name, j) for j, a in enumerate(args)), e[0]))
        funcs.append(Fn('f@_%d' % i, args, ret))
    for i in range(ch.r(1, 5)):
        t = ch.of(FT + FT + IT) if i else ch.of(FT)
        if isf(t):
            vals = [flit(ch, fval(ch), t) for _ in range(nvec)]
        else:
            vals = [lit(bval(ch, t.size, t.signed) if t.name != '_Bool' else ch.n(2), t) for _ in range(nvec)]
        if any('INF' in v or 'NAN' in v for v in vals):     # filled in at run time
            decls.append('static %s in@_%d[%d];\n' % (t.name, i, nvec))
            body.insert(0, ''.join('in@_%d[%d] = %s; ' % (i, j, v) for j, v in enumerate(vals)))
        else:
            decls.append('static %s in@_%d[%d] = {%s};\n' % (t.name, i, nvec, ', '.join(vals)))
        kind = ch.n(5)
        if kind <= 1:
            b = '  %s v%d = in@_%d[k];' % (t.name, i, i)
            vars_.append(FV('v%d' % i, t))
        elif kind == 2:
            decls.append('static %s g@_%d;\n' % (t.name, i))
            b = '  g@_%d = in@_%d[k];' % (i, i)
            vars_.append(FV('g@_%d' % i, t))
        elif kind == 3:
            b = '  struct { %s %s m; char e; } s%d; s%d.m = in@_%d[k];' % (ch.of(['', 'char c;', 'char c[200];']), t.name, i, i, i)
            vars_.append(FV('s%d.m' % i, t))
        else:
            n = ch.r(1, 9)
            ix = ch.n(n)
            b = '  %s a%d[%d]; int i%d = %d; a%d[i%d] = in@_%d[k]; %s *p%d = a%d + i%d;' % (t.name, i, n, i, ix, i, i, i, t.name, i, i, i)
            vars_.append(FV(ch.of(['a%d[i%d]', '(*(a%d + i%d))']) % (i, i) if ch.chance(1, 2) else '(*p%d)' % i, t))
        body.append(b)
    pre = body[:0]
    head = [b for b in body if b.startswith('in@')]
    body = [b for b in body if not b.startswith('in@')]
    g = FloatGen(ch, vars_, funcs)
    depth = ch.of([2, 3, 4])
    for s in range(ch.r(1, 4)):
        k = ch.n(10)
        if k < 4:
            e = g.expr(depth, True)
            body.append('  %s(%s);' % ('h_f64' if e[1] is F64 else 'h_f32', e[0]))
        elif k == 4:
            e = g.expr(depth, False)
            body.append('  h_log((u64)%s);' % e[0])
        elif k == 5:
            e = g.expr(depth, ch.of([True, False]))
            body.append(ch.of(['  if (%s) h_log(1); else h_log(2);', '  { int n = 0; while (%s) { if (++n > 3) break; } h_log(n); }', '  { int n = 0; for (; %s; ) { if (++n > 2) break; } h_log(n); }']) % e[0])
        elif k == 6:
            e = g.expr(depth, True)
            body.append('  h_log(sizeof(%s)); h_log(_Generic((%s), float: 1, double: 2, default: 3));' % (e[0], e[0]))
        elif k == 7:
            t = ch.of(FT)
            e = g.expr(depth, None)
            body.append('  { %s r = %s; h_f64(r); h_log(r == r); }' % (t.name, e[0]))
        elif k == 8:
            v = ch.of(vars_)
            e = g.assign(v, depth, set(), set())
            body.append('  %s;' % e[0])
        else:       # chains keep many xmm registers live
            n = ch.r(5, 20)
            es = [g.expr(1, True, set(), set(g.allg())) for _ in range(n)]
            x = es[0][0]
            for e in es[1:]:
                x = '(%s %s %s)' % ((e[0], ch.of(['+', '-', '*']), x) if ch.chance(1, 2) else (x, ch.of(['+', '-', '*']), e[0]))
            body.append('  h_f64(%s);' % x)
            g.tags.add('long chain')
    if ch.n(3) == 1:
        # every conversion of boundary integers to both floating types
        it = ch.of([ULL, ULL, TY['long long'], UINT, INT] + IT[4:])
        n = 24
        decls.append('static %s ci@[%d] = {%s}; static %s cg@; static %s ci@_f(%s v){ return v; }\n' % (it.name, n, ', '.join(lit(bval(ch, it.size, it.signed) if it.name != '_Bool' else ch.n(2), it) for _ in range(n)), it.name, ch.of(FT).name, it.name))
        cs = ['h_f64((double)x);', 'h_f32((float)x);', 'cg@ = x; h_f64(cg@);', 'h_f32(ci@[q]);', 'h_f64(ci@_f(x));', 'float f = 0; f += x; h_f32(f);', 'double e = 0.5; e = e * 0 + x; h_f64(e);', 'h_f64(1 ? x : 0.5);', 'h_log(x < 1e10f); h_log(x == (float)x);']
        body.append('  if (k == 0) for (int q = 0; q < %d; q++) { %s x = ci@[q]; %s }' % (n, it.name, ' '.join('{ %s }' % c for c in ch.shuffle(cs)[:ch.r(2, 5)])))
        tags.add('integer to float table')
    for v in vars_:
        body.append('  %s(%s);' % ('h_f64' if v.t is F64 else 'h_f32' if v.t is F32 else 'h_log', ('(u64)' if not isf(v.t) else '') + v.text))
    text = '%s\nfor (int k = 0; k < %d; k++) {\n%s\n}' % ('\n'.join(head), nvec, '\n'.join(body))
    return Case(''.join(decls), text, nontrivial=text.count('(') > 8, tags=sorted(tags | g.tags))


class FloatWorker(DiffWorker):
    prelude = PRELUDE + 'static double h_zero = 0.0;\n#define INF (1.0 / h_zero)\n#define NAN (h_zero / h_zero)\n'

    def gen(self, ch):
        return gen_float(ch)
