"""C22: calls of printlike functions; the receiver logs the format string and every argument it announces"""
import re, struct as st
from .core import *
from .diff import *

HEAD = '''typedef unsigned long long u64; typedef long long s64;
__declspec(dllimport) void h_log(u64); __declspec(dllimport) void h_f64(double); __declspec(dllimport) void h_mem(void *, u64); __declspec(dllimport) void h_str(char *);
#include <stdarg.h>
static int walk(char *f, va_list va) {
  int n = 0;
  h_str(f);
  for (; *f; f++) {
    if (*f != '%') continue;
    f++;
    int ll = 0, prec = -1;
    while (*f == '-' || *f == '+' || *f == ' ' || *f == '#' || *f == '0') f++;
    if (*f == '*') { h_log((u64)va_arg(va, int)); n++; f++; } else while (*f >= '0' && *f <= '9') f++;
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(va, int); h_log((u64)prec); n++; f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + *f++ - '0'; }
    while (*f == 'l' || *f == 'h') { if (*f == 'l') ll++; f++; }
    if (*f == '%') continue;
    n++;
    switch (*f) {
      case 'd': case 'i': if (ll == 2) h_log((u64)va_arg(va, s64)); else h_log((u64)va_arg(va, int)); break;
      case 'u': case 'x': case 'X': case 'o': if (ll == 2) h_log(va_arg(va, u64)); else h_log(va_arg(va, unsigned int)); break;
      case 'c': h_log((u64)va_arg(va, int)); break;
      case 'p': h_log(va_arg(va, u64)); break;
      case 's': { char *s = va_arg(va, char *); u64 k = 0; while (k != (u64)(s64)prec && s[k]) k++; h_mem(s, k); break; }
      case 'f': case 'e': case 'g': case 'F': case 'E': case 'G': case 'a': case 'A': h_f64(va_arg(va, double)); break;
      default: h_log(0xbadbadbad); return -1;
    }
  }
  return n;
}
__declspec(printlike) int pr(char *format, ...) { va_list va; va_start(va, format); int r = walk(format, va); va_end(va); return r; }
__declspec(printlike) int pr1(int a, char *format, ...) { va_list va; va_start(va, format); h_log((u64)a); int r = walk(format, va); va_end(va); return r; }
__declspec(printlike) int pr2(double d, char a, char *format, ...) { va_list va; va_start(va, format); h_f64(d); h_log((u64)a); int r = walk(format, va); va_end(va); return r; }
__declspec(printlike) long long pr4(long long a, short b, float c, void *d, char *format, ...) { va_list va; va_start(va, format); h_log((u64)(a + b)); h_f64(c); int r = walk(format, va); va_end(va); return r + 0x100000000; }
struct Big { int a; double b; long long c, d; }; typedef struct Big (bigfn)(int);
enum En { EnA, EnB, EnC = 100, EnD = -5 };
static unsigned long long calls;
'''
INTS = [('char', 1, 1), ('signed char', 1, 1), ('unsigned char', 1, 0), ('short', 2, 1), ('unsigned short', 2, 0), ('int', 4, 1), ('unsigned int', 4, 0), ('long', 4, 1), ('unsigned long', 4, 0), ('long long', 8, 1), ('unsigned long long', 8, 0), ('s64', 8, 1), ('u64', 8, 0)]


def mem_log(b):
    out = [len(b)]
    for i in range(0, len(b), 8):
        out.append(int.from_bytes(b[i:i + 8], 'big'))
    return out


class Ty:
    # kinds: int (size, signed), bit, float, double, ptr, str (char *), enum, bool, struct, union, array
    def __init__(self, kind, text, **k):
        self.kind, self.text = kind, text
        self.__dict__.update(k)

    def decl(self, name):
        if self.kind == 'array':
            return self.elem.decl('%s[%d]' % (name, self.n))
        if self.kind == 'bit':
            return '%s %s : %d' % (self.text, name, self.width)
        if self.kind == 'fnptr':
            return 'int (*%s)(int)' % name
        return '%s %s' % (self.text, name)


class PrintCase(GCase):
    pass


class Gen:
    def __init__(self, ch):
        self.ch = ch
        self.n = 0
        self.types = []
        self.globals = []
        self.locals = []
        self.tags = set()
        self.compounds = []

    def uid(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def scalar(self):
        ch = self.ch
        k = ch.weighted([(10, 'int'), (2, 'float'), (2, 'double'), (2, 'ptr'), (2, 'str'), (2, 'enum'), (1, 'bool'), (1, 'fnptr')])
        if k == 'int':
            t = ch.of(INTS)
            return Ty('int', t[0], size=t[1], signed=t[2])
        return {'float': Ty('float', 'float'), 'double': Ty('double', 'double'), 'ptr': Ty('ptr', ch.of(['void *', 'int *', 'struct Big *', 'unsigned char *', 'char **', 'const short *'])), 'str': Ty('str', ch.of(['char *', 'const char *', 'char *'])),
                'enum': Ty('enum', 'enum En', size=4, signed=1), 'bool': Ty('bool', '_Bool', size=1, signed=0), 'fnptr': Ty('fnptr', '')}[k]

    def type(self, depth=0):
        ch = self.ch
        k = ch.n(12 if depth < 3 else 5)
        if k < 7 and not (depth == 0 and ch.chance(1, 3)):
            return self.scalar()
        if k < 9 and k >= 7:
            e = self.type(depth + 1)
            return Ty('array', '', elem=e, n=ch.of([1, 2, 3, 4, 5]))
        if self.compounds and ch.chance(1, 2):
            t = ch.of(self.compounds)
            if self.leafcount(t) < 30:
                return t
        return self.compound(depth)

    def leafcount(self, t):
        if t.kind == 'array':
            return t.n * self.leafcount(t.elem)
        if t.kind == 'struct':
            return sum(self.leafcount(m[1]) for m in t.members)
        if t.kind == 'union':
            return self.leafcount(t.members[0][1])
        return 1

    def compound(self, depth, anonymous=False):
        ch = self.ch
        union = ch.chance(1, 5)
        name = self.uid('U' if union else 'S')
        ms = []
        for _ in range(ch.of([1, 2, 3, 4, 7]) if not union else ch.r(1, 3)):
            w = ch.n(12)
            mn = self.uid('m')
            if w < 2 and not union:
                b = ch.of([('int', 4, 1, 31), ('unsigned int', 4, 0, 31), ('long long', 8, 1, 60), ('unsigned long long', 8, 0, 60), ('unsigned char', 1, 0, 8), ('short', 2, 1, 15)])
                ms.append((mn, Ty('bit', b[0], size=b[1], signed=b[2], width=ch.r(1 + b[2], b[3]))))
            elif w == 2 and depth < 2 and not anonymous:
                ms.append(('', self.compound(depth + 1, True)))
                self.tags.add('anonymous member')
            else:
                t = self.type(depth + 1)
                ms.append((mn, t))
        t = Ty('union' if union else 'struct', '%s %s' % ('union' if union else 'struct', name), members=ms, tag=name)
        body = '%%s { %s; }' % '; '.join(self.inline(m[1]) if not m[0] else m[1].decl(m[0]) for m in ms)
        t.body = body
        t.word = 'union' if union else 'struct'
        if anonymous:
            t.text = body % t.word
            return t
        style = ch.n(6)
        if style == 0:
            self.types.append('typedef %s %s_t;' % (body % ('%s %s' % (t.word, name)), name))
            t.text = name + '_t'
        elif style == 1:
            self.types.append('typedef %s %s_t;' % (body % t.word, name))
            t.text = name + '_t'
            t.tag = '<unnamed-tag>'
        else:
            self.types.append(body % ('%s %s' % (t.word, name)) + ';')
        self.compounds.append(t)
        return t

    def inline(self, t):
        return t.body % t.word

    # ------------------------------------------------------------ leaves in the order of printing: (path, type)
    def leaves(self, t, path=''):
        if t.kind == 'array':
            for i in range(t.n):
                yield from self.leaves(t.elem, '%s[%d]' % (path, i))
        elif t.kind == 'struct':
            for m, mt in t.members:
                yield from self.leaves(mt, path + ('.' + m if m else ''))
        elif t.kind == 'union':
            m, mt = t.members[0]
            yield from self.leaves(mt, path + ('.' + m if m else ''))
        else:
            yield path, t

    def value(self, t):
        """(text, what the receiver logs as a conversion of the type)"""
        ch = self.ch
        k = t.kind
        if k in ('int', 'bit'):
            w = t.width if k == 'bit' else t.size * 8
            v = ch.of([0, 1, 2, 7, 100, ch.bits(w), ch.bits(w), (1 << (w - 1)) - 1, (1 << w) - 1, 1 << (w - 1)])
            v &= (1 << w) - 1
            if t.signed and v >> (w - 1):
                v -= 1 << w
            if v == -(1 << 63):
                return '(-0x7fffffffffffffffll - 1)', v
            return ('%dull' % v if v > (1 << 62) else '%dll' % v if abs(v) > 0x7fffffff else '%d' % v), v
        if k == 'enum':
            return ch.of([('EnA', 0), ('EnB', 1), ('EnC', 100), ('EnD', -5)])
        if k == 'bool':
            return ch.of([('0', 0), ('1', 1)])
        if k == 'float':
            v = ch.of([0.0, 1.5, -2.25, 3e10, 0.1, -0.0])
            v = st.unpack('<f', st.pack('<f', v))[0]
            return '(float)%r' % v, v
        if k == 'double':
            v = ch.of([0.0, 1.5, -2.25, 3e100, 0.1, 1e-300, -0.0])
            return '%r' % v, v
        if k == 'str':
            s = ch.of(['', 'a', 'hello', 'hello, world', '%d {} x', 'twelve chars and more than that'])
            return '"%s"' % s, s
        v = ch.of([0, 0x1234, 0x7fff12345678, 0xffffffffffffffff])
        return ('(void *)0x%xull' % v), v

    # ------------------------------------------------------------ objects
    def obj(self, t=None, name=None):
        """declares and fills an object; returns (name, type, values of the leaves)"""
        ch = self.ch
        t = t or self.type()
        while self.leafcount(t) > 40:
            t = self.scalar()
        n = name or self.uid(ch.of(['v', 'x', 'abc_', 's', 'i']))
        w = ch.n(4)
        d = t.decl(n)
        if w == 0:
            self.globals.append('%s%s;' % (ch.of(['', 'static ']), d))
        elif w == 1:
            self.locals.append('static %s;' % d)
        else:
            self.locals.append(d + ';')
        vals = []
        for p, lt in self.leaves(t):
            x, v = self.value(lt)
            self.locals.append('%s%s = %s;' % (n, p, x))
            vals.append((p, lt, v))
        return n, t, vals


class PrintWorker(GenWorker):
    def conv(self, t, v, spec, star=None):
        """(format text, [logged values]) of one scalar; spec = (flags, width, precision, type)"""
        flags, width, prec, ts = spec
        flags = flags.replace('#', '')
        dot = '.' if prec else ''
        k = t.kind
        if k in ('int', 'bit', 'enum', 'bool'):
            size, signed = t.size, t.signed
            if k == 'bit':
                # bit-fields of up to 32 bits of int or smaller are promoted
                if t.width < 32 or t.width == 32 and t.signed:
                    size, signed = 4, 1
                elif t.width == 32:
                    size, signed = 4, 0
            elif size < 4:
                size, signed = 4, 1
            c = 'd' if signed else 'x'
            for x in ts:
                c = {'n': 'd' if signed else 'u', 'x': 'x', 'u': 'u', 'd': 'd', 'o': 'o'}.get(x, c)
            f = {'x': '0x', 'o': '0o'}.get(c, '') + '%' + flags + width + dot + prec + ('ll' if size == 8 else '') + c
            bits = 8 * size
            x = v & ((1 << bits) - 1)
            if c == 'd' and bits == 32 and x >> 31:
                x |= 0xffffffff00000000
            return f, [x]
        if k in ('float', 'double'):
            return '%' + flags + width + dot + prec + 'f', [st.unpack('<Q', st.pack('<d', v))[0]]
        if k == 'str' and 's' in ts:
            b = v.encode('latin-1')
            if prec == '*':
                b = b[:star]
            elif prec:
                b = b[:int(prec)]
            return '%' + flags + width + dot + prec + 's', mem_log(b)
        if k == 'str':
            return '%p', ['ptr']
        return '%p', [v]

    def infer(self, name, t, vals, spec, star=None):
        """the inferred format (as a regular expression) and the values"""
        flags, width, prec, ts = spec
        if t.kind == 'array' and 's' in ts and t.elem.kind == 'int' and t.elem.text in ('char',):
            b = bytes((v & 255) for p, lt, v in vals)
            b = b.split(b'\0')[0] if b'\0' in b else None
            return (re.escape('%' + flags.replace('#', '') + width + ('.' if prec else '') + prec + 's'), mem_log(b[:star] if prec == '*' else b[:int(prec)] if prec else b))
        if t.kind not in ('struct', 'union', 'array'):
            f, v = self.conv(t, vals[0][2], spec, star)
            return re.escape(f), v
        multi = '#' in flags
        out = []
        log = []
        for p, lt, v in vals:
            f, l = self.conv(lt, v, spec)
            out.append(re.escape(('    ' if multi else '') + p + ' = ' + f))
            log += l
        if t.kind == 'array':
            head = r'\([^{}]*\)\{' if t.elem.kind != 'int' else re.escape('(' + self.arr_text(t) + '){')
        else:
            head = re.escape('(%s %s){' % (t.word, t.tag))
        if multi:
            return head + '\n' + ',\n'.join(out) + ',\n' + r'\}', log
        return head + ', '.join(out) + r'\}', log

    def arr_text(self, t):
        e = {'unsigned long': 'unsigned int', 'long': 'int', 's64': 'long long', 'u64': 'unsigned long long', 'signed char': 'char'}.get(t.elem.text, t.elem.text)
        return '%s[%d]' % (e, t.n)

    def spec(self, t, star_ok=True):
        ch = self.ch
        scal = t.kind not in ('struct', 'union', 'array')
        flags = ''.join(sorted({ch.of('+- #0') for _ in range(ch.weighted([(8, 0), (3, 1), (1, 2)]))}))
        width = ch.of(['', '', '', '1', '8', '12', '200'])
        if width == '' and flags.endswith('0') and False:
            flags = flags[:-1]
        prec = ch.of(['', '', '', '', '0', '1', '3', '10'])
        ts = ch.of(['', '', '', '', 'x', 'd', 'u', 'o', 'n', 's', 's'])
        return flags, width, prec, ts

    def gen(self, ch):
        self.ch = ch
        g = Gen(ch)
        self.tags = g.tags
        objs = [g.obj(name=ch.of(['i', 'value', 'p_2', 'thing', 'Q']) + str(k)) for k in range(ch.r(1, 5))]
        stmts, want = [], []
        extra = []
        n = 0
        for _ in range(ch.r(1, 6)):
            call, exp = self.call(g, objs)
            if ch.chance(1, 8):
                call = ch.of(['if (calls < 1000) { %s; }', 'for (int k = 0; k < 1; k++) %s;', '{ int t = 1; %s; }', 'switch (1) { case 1: %s; }', 'do %s; while (0);']) % call
            stmts.append(call + ';')
            want += exp
            n += 1
        text = HEAD + '\n'.join(g.types + g.globals) + '\n' + '\n'.join(self.funcs) + '\n__declspec(dllexport) void t0(void) {\n  ' + '\n  '.join(g.locals + stmts) + '\n}\n'
        fl = {'a.c': text, 'expected.txt': '\n'.join(str(w) for w in want) + '\n'}
        return PrintCase(text, fl, any('{' in s or '%?' in s or '"' not in s for s in stmts) and len(want) > 3, self.tags, want)

    funcs = ()

    def operand(self, g, objs):
        """(text of the argument, type, values, name or None)"""
        ch = self.ch
        w = ch.n(14)
        n, t, vals = ch.of(objs)
        if w < 6:
            return n, t, vals, n
        if w == 6:
            x = ch.of(['(%s)', '*&%s', '(&%s)[0]', '*(&%s + 0)'])
            return x % n, t, vals, n if x[0] == '(' and x[1] == '%' else None
        if w == 7 or w == 8:
            # a member or element
            path = ''
            while t.kind in ('struct', 'union', 'array') and (path == '' or ch.chance(2, 3)):
                if t.kind == 'array':
                    k = ch.n(t.n)
                    s, t = '[%d]' % k, t.elem
                else:
                    m, t = ch.of(t.members) if t.kind == 'struct' else t.members[0]
                    s = '.' + m if m else ''
                    if not m:
                        # go on into the anonymous member
                        while not m:
                            m, t = ch.of(t.members) if t.kind == 'struct' else t.members[0]
                        s = '.' + m
                path += s
                vals = [(p[len(s):], lt, v) for p, lt, v in vals if p.startswith(s) and not p[len(s):len(s) + 1].isdigit()]
            self.tags.add('member')
            return n + path, t, vals, (n if path == '' else None)
        if w == 9:
            t = g.scalar()
            x, v = g.value(t)
            if t.kind in ('int', 'enum', 'bool'):
                return '(%s)%s' % (t.text, x), t, [('', t, v)], None
            if t.kind == 'str':
                return '(char *)%s' % x, t, [('', t, v)], None
            if t.kind == 'fnptr':
                return '(int (*)(int))%s' % x, t, [('', t, v)], None
            return '(%s)%s' % (t.text, x), t, [('', t, v)], None
        if w == 10 and t.kind in ('struct', 'union'):
            # the result of a function
            f = g.uid('fn')
            src = g.uid('g')
            g.globals.append('static %s %s;' % (t.text, src))
            g.globals.append('static %s %s(int a) { calls += a; return %s; }' % (t.text, f, src))
            g.locals.append('%s = %s;' % (src, n))
            self.tags.add('call')
            return '%s(%d)' % (f, 1), t, vals, None
        if w == 11 and t.kind in ('struct', 'union'):
            p = g.uid('p')
            g.locals.append('%s *%s = &%s;' % (t.text, p, n))
            self.tags.add('deref')
            return ch.of(['*%s', '%s[0]', '*(%s + 0)', '(*%s)']) % p, t, vals, None
        if w == 12 and t.kind == 'int' and t.size >= 4:
            k = ch.r(1, 100)
            tt = Ty('int', t.text, size=t.size, signed=t.signed)
            v = vals[0][2] ^ k
            return ch.of(['(%s ^ %d)', '%s ^ %d']) % (n, k), tt, [('', tt, v)], None
        if w == 13:
            v = ch.of(['abc', '', 'literal with \\"quotes\\"'])
            b = v.replace('\\"', '"').encode()
            tt = Ty('array', '', elem=Ty('int', 'char', size=1, signed=1), n=len(b) + 1)
            return '"%s"' % v, tt, [('[%d]' % i, tt.elem, c if c < 128 else c - 256) for i, c in enumerate(b + b'\0')], None
        return n, t, vals, n

    def call(self, g, objs):
        ch = self.ch
        lead, log = ch.weighted([(5, ('pr(', [])), (2, ('pr1(77, ', [77])), (2, ('pr2(1.5, 3, ', [0x3ff8000000000000, 3])), (1, ('pr4(5, -2, 0.5f, 0, ', [3, 0x3fe0000000000000]))])
        log = list(log)
        if ch.chance(1, 5):
            # without a format string
            fmt, vals, args = [], [], []
            for k in range(ch.r(1, 3)):
                x, t, v, name = self.operand(g, objs)
                if k == 0 and x.startswith('"'):
                    x, t, v, name = objs[0][0], objs[0][1], objs[0][2], objs[0][0]
                f, l = self.infer(name, t, v, ('', '', '', ''))
                fmt.append((re.escape(name + ' = ') if name else '') + f)
                vals += l
                args.append(x)
            self.tags.add('no format string')
            return lead + ', '.join(args) + ')', log + [('fmt', ' '.join(fmt) + '\n')] + vals
        src, fmt, vals, args = '', '', [], []
        for k in range(ch.r(0, 5)):
            lit = ch.of(['', ' ', ', ', 'x = ', ' { ', '} ', '%%', '{ a b %% }', 'text: ', '}}', '\\n', ' {{ ' if 0 else ' { {', '(', '{ not: a} '])
            src += lit
            fmt += re.escape(lit.replace('\\n', '\n'))
            w = ch.n(10)
            if w < 2:
                # C style
                kind = ch.n(7)
                if kind == 0:
                    v = ch.of([0, 5, -7, 0x7fffffff])
                    s = ch.of(['%d', '%i', '%5d', '%-5d', '%05d', '%+d', '%.3d', '% d', '%8.3d'])
                    a, l = '%d' % v, [v & (2 ** 64 - 1)]
                elif kind == 1:
                    v = ch.bits(32)
                    s = ch.of(['%u', '%x', '%X', '%o', '%08x', '%#x'])
                    a, l = '%du' % v, [v]
                elif kind == 2:
                    v = ch.bits(63)
                    s = ch.of(['%lld', '%llx', '%016llx', '%llu'])
                    a, l = '%dll' % v, [v]
                elif kind == 3:
                    s = ch.of(['%f', '%g', '%e', '%.2f', '%10.3f', '%lf'])
                    a, l = '2.5', [0x4004000000000000]
                elif kind == 4:
                    s = ch.of(['%s', '%10s', '%-10s', '%.20s'])
                    a, l = '"abc"', mem_log(b'abc')
                elif kind == 5:
                    s = ch.of(['%.*s'])
                    a, l = '2, "abc"', [2] + mem_log(b'ab')
                else:
                    s = ch.of(['%*d', '%-*d'])
                    a, l = '4, 9', [4, 9]
                src += s
                fmt += re.escape(s)
                args.append(a)
                vals += l
                continue
            x, t, v, name = self.operand(g, objs)
            sp = self.spec(t)
            flags, width, prec, ts = sp
            star = None
            pre = []
            if t.kind == 'array' and 's' in ts and (t.elem.kind != 'int' or t.elem.text != 'char' or not any(q[2] == 0 for q in v)):
                ts = ''
            if w < 4 and name and x == name:
                eq = ch.chance(1, 2)
                src += '{%s%s%s}' % (name, '=' if eq else '', self.spec_text((flags, width, prec, ts)))
                if eq:
                    fmt += re.escape(name + ' = ')
                self.tags.add('name in braces')
            elif w == 4:
                ts = ''
                src += '%%%s%s%s?' % (flags, width, '.' + prec if prec else '')
                args.append(x)
            else:
                if t.kind not in ('struct', 'union', 'array') and ch.chance(1, 6):
                    s1 = ch.n(20)
                    if ch.chance(1, 2):
                        width = '*'
                        pre.append(s1)
                        args.append('%d' % s1)
                    else:
                        prec = '*'
                        star = s1
                        pre.append(s1)
                        args.append('%d' % s1)
                    self.tags.add('star')
                    src += '{%s}' % self.spec_text((flags, width, prec, ts))
                elif (flags, width, prec, ts) == ('', '', '', '') and ch.chance(1, 2):
                    src += '{}'
                elif (flags, width, prec) == ('', '', '') and ts in ('x', 's') and ch.chance(1, 3):
                    src += '{%s}' % ts
                else:
                    src += '{%s}' % self.spec_text((flags, width, prec, ts))
                args.append(x)
            if pre and self.ignores(t, (flags, width, prec, ts)):
                # no conversion takes the star: not expressible
                return self.call(g, objs)
            f, l = self.infer(name, t, v, (flags, width, prec, ts), star)
            fmt += f
            vals += pre + l
        lit = ch.of(['', '\\n', '.', '%%', ' {', '}'])
        src += lit
        fmt += re.escape(lit.replace('\\n', '\n'))
        if '%' in src or '{' in src:
            pass
        if ch.chance(1, 10) and '\\' not in src:
            k = ch.n(len(src) + 1)
            src = src[:k] + '" "' + src[k:]
        return lead + '"%s"' % src + ''.join(', ' + a for a in args) + ')', log + [('fmt', fmt)] + vals

    def ignores(self, t, sp):
        return t.kind in ('ptr', 'fnptr') or t.kind == 'str' and 's' not in sp[3]

    def spec_text(self, sp):
        flags, width, prec, ts = sp
        s = flags + width + ('.' + prec if prec else '') + ts
        return ':' + s if s or self.ch.chance(1, 4) else ''

    # ------------------------------------------------------------ judging
    def judge(self, case):
        self.px.write('a.c', case.fl['a.c'])
        r = self.px.hlc_dll(['a.c'], 'a.dll')
        if r.abnormal or r.status:
            return 'bad', 'compiling fails: %s' % (r.abnormal or r.status), r.text[-1500:]
        logs, err, rr = self.px.tests('a.dll', ['max=8000'])
        if err or len(logs) != 1:
            return 'bad', 'the program does not run: %s' % err, ''
        l = logs[0]
        if l.status or l.flags:
            return 'bad', 'the test fails: status %d flags %d' % (l.status, l.flags), ''
        v = list(l.vals)
        i = 0
        s = ''
        for w in case.data:
            if i >= len(v):
                return 'bad', 'arguments are missing', str(w)
            if isinstance(w, tuple):
                n = v[i]
                k = (n + 7) // 8
                if i + 1 + k > len(v):
                    return 'bad', 'the log does not hold the format string expected', '%d at %d of %d' % (n, i, len(v))
                b = b''
                for q in range(k):
                    x = v[i + 1 + q]
                    m = 8 if q < n // 8 else n % 8
                    b += x.to_bytes(8, 'big')[8 - m:]
                i += 1 + k
                s = b[:-1].decode('latin-1')
                if not re.fullmatch(w[1], s):
                    return 'bad', 'another format string', 'got      %r\nexpected %s' % (s, w[1])
            elif w == 'ptr':
                i += 1
            else:
                if v[i] != w & (2 ** 64 - 1):
                    return 'bad', 'another argument', 'got %#x expected %#x after format %r' % (v[i], w & (2 ** 64 - 1), s)
                i += 1
        if i != len(v):
            return 'bad', 'more was logged', '%d of %d' % (i, len(v))
        return 'ok', '', ''
