"""C10: integer, floating, character and string literals in every place a constant can stand"""
import struct
from fractions import Fraction
from .core import *
from .diff import *


def sep(ch, s):
    """digit separators (accepted by hlc, not by the reference at C11)"""
    if len(s) < 2 or ch.n(4):
        return s
    k = ch.r(1, len(s) - 1)
    return s[:k] + "'" + s[k:]


def case_mix(ch, s):
    return ''.join(c.upper() if ch.n(2) else c for c in s)


IVALS = [0, 1, 7, 8, 9, 10, 127, 128, 255, 256, 32767, 32768, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1]


def int_lit(ch):
    """(text for the reference, text for hlc, tags)"""
    k = ch.n(6)
    v = ch.of(IVALS) + ch.of([0, 0, 1, -1]) if k < 3 else ch.bits(ch.r(1, 64)) if k < 5 else ch.n(100)
    v = max(0, min(v, (1 << 64) - 1))
    base = ch.of(['d', 'x', 'o', 'b'])
    suf = ch.of(['', '', '', 'u', 'l', 'ul', 'll', 'ull', 'lu', 'llu', 'i8', 'i16', 'i32', 'i64', 'ui8', 'ui16', 'ui32', 'ui64'])
    if base == 'd' and 'u' not in suf:
        v = min(v, (1 << 63) - 1)
    if base != 'd' and suf == 'll':
        v &= (1 << 63) - 1      # the reference follows MSVC, where such a literal is always signed
    if 'i' in suf:
        bits = int(suf.lstrip('u')[1:])
        v &= (1 << bits) - 1
        if 'u' not in suf:
            v &= (1 << (bits - 1)) - 1
        suf = case_mix(ch, suf)
    else:
        suf = suf.replace('l', ch.of('lL')).replace('u', ch.of('uU'))
    tags = {'int base ' + base}
    if base == 'd':
        a = '%d' % v
        h = sep(ch, a)
    elif base == 'x':
        d = case_mix(ch, '%x' % v) if ch.n(2) else '%x' % v
        d = '0' * ch.of([0, 0, 1, 8]) + d
        p = ch.of(['0x', '0X'])
        a, h = p + d, p + sep(ch, d)
    elif base == 'o':
        d = '%o' % v
        z = '0' * ch.of([0, 0, 2])
        a = '0' + z + d
        h = ch.of(['0', '0', '0o', '0O']) + z + sep(ch, d)
    else:
        d = '0' * ch.of([0, 0, 3]) + bin(v)[2:]
        p = ch.of(['0b', '0B'])
        a, h = p + d, p + sep(ch, d)
    if "'" in h:
        tags.add('digit separator')
    if suf:
        tags.add('int suffix')
    return a + suf, h + suf, tags


def exact_dec(fr):
    """exact decimal digits and exponent of a dyadic fraction: (digits, e) with value digits * 10^e"""
    n, d = fr.numerator, fr.denominator
    k = d.bit_length() - 1
    return n * 5 ** k, -k


def spell_dec(ch, n, e):
    """a decimal spelling of n * 10^e"""
    s = str(n)
    k = ch.n(4)
    if k == 0 and 0 <= -e < len(s) + 40 and -e <= 400:      # no exponent
        if e == 0:
            return s + ch.of(['.', '.0', '.000'])
        s = s.rjust(-e + 1, '0')
        r = s[:e] + '.' + s[e:]
        if ch.n(3) == 0 and r.startswith('0.'):
            r = r[1:]
        return r
    if k == 1:
        return '%s%s%s%d' % (s, ch.of(['', '.', '.0']), ch.of('eE'), e)
    # d.ddd e x
    x = e + len(s) - 1
    p = ch.n(min(len(s), 20) + 1)
    x2 = e + len(s) - p
    a, b = s[:p], s[p:]
    if not a and not b:
        b = '0'
    t = (a or ch.of(['', '0'])) + '.' + b
    return '%s%s%s%s' % (t, ch.of('eE'), ch.of(['', '+', '+0']) if x2 >= 0 else '', x2) if x2 or ch.n(2) else t


def float_lit(ch):
    suf = ch.of(['', '', 'f', 'F', 'l', 'L'])
    f32 = suf in 'fF' and suf != ''
    p, emin, emax = (24, -149, 127) if f32 else (53, -1074, 1023)
    tags = {'float'}
    k = ch.n(8)
    hexf = ch.n(4) == 0
    if k < 2 and not hexf:
        n, e = ch.bits(ch.r(1, 70)), ch.r(-40, 20)
        if k == 0:
            n, e = ch.n(1000), ch.of([0, -1, -2, 1, 2, -3])
        if n * Fraction(10) ** e > Fraction(3) * 10 ** 38:
            e = 0
        fr = Fraction(n) * Fraction(10) ** e
    else:
        # near the middle of two neighbouring values, or exactly a value
        w = ch.r(1, p)
        m = (1 << (w - 1)) | ch.of([0, 1, (1 << (w - 1)) - 1, ch.bits(max(1, w - 1)) & ((1 << (w - 1)) - 1)]) if w > 1 else 1
        ex = ch.of([0, 0, -10, ch.r(-60, 60), emin, emin + 1, emin + 5, emax - p, ch.r(emin, emax - p), ch.r(-30, 10)])
        if ex < emin:
            ex = emin
        ex = min(ex, emax - p)
        fr = Fraction(m) * Fraction(2) ** ex
        if k >= 4:
            # the unit in the last place of p bits
            ulp = max(ex + w - p, emin)
            fr += Fraction(2) ** (ulp - 1)
            tags.add('rounding boundary')
            if k >= 5:
                off = Fraction(2) ** (ulp - ch.of([2, 10, 30, 60, 200]))
                fr += off if ch.n(2) else -off
    if fr < 0:
        fr = -fr
    if hexf:
        tags.add('hexadecimal float')
        n, d = fr.numerator, fr.denominator
        ex = -(d.bit_length() - 1)
        sh = ch.n(8)
        n <<= sh
        ex -= sh
        s = case_mix(ch, '%x' % n)
        q = ch.n(min(len(s), 30) + 1)
        if q:
            t = ch.of(['', '0']) + s[:-q] + '.' + s[-q:] if s[:-q] else '0.' + s
            if not s[:-q]:
                q = len(s)
            ex += 4 * q
        else:
            t = s + ch.of(['', '.'])
        txt = '0%s%s%s%s%d' % (ch.of('xX'), t, ch.of('pP'), ch.of(['', '+']) if ex >= 0 else '', ex)
    else:
        n, e = exact_dec(fr) if fr.denominator & (fr.denominator - 1) == 0 else (None, None)
        if n is None:
            # a decimal fraction
            e = 0
            f2 = fr
            while f2.denominator != 1:
                f2 *= 10
                e -= 1
            n = f2.numerator
        s = str(n)
        if len(s) > 780:      # keep the literal readable
            cut = ch.of([17, 18, 25, 400])
            n, e = int(s[:cut]), e + len(s) - cut
        while n and n % 10 == 0 and ch.n(8):
            n //= 10
            e += 1
        txt = spell_dec(ch, n, e)
    return txt + suf, f32, tags


CPS = [0xa0, 0xa9, 0xe4, 0xff, 0x100, 0x3b1, 0x7ff, 0x800, 0x20ac, 0x4e2d, 0xd7ff, 0xe000, 0xffff, 0xfffd, 0x10000, 0x1f600, 0x10ffff, 0x12345, 0x10fc00, 0x100ff, 0x2f800]


def codepoint(ch):
    if ch.n(3) == 0:
        c = ch.bits(ch.r(8, 20)) | 0x80
        c = min(c, 0x10ffff)
        if c < 0xa0 or 0xd800 <= c < 0xe000:
            c = 0x20ac
        return c
    return ch.of(CPS)


def chars(ch, width, delim, n, single=False):
    """pieces of a literal for a character type of width bytes"""
    out, tags = [], set()
    for _ in range(n):
        k = ch.n(12)
        if k < 5:
            c = chr(32 + ch.n(95))
            if c == '@':
                c = 'a'
            if c in '\\"\'?':
                c = '\\' + c
            out.append(c)
        elif k == 5:
            out.append('\\' + ch.of('abfnrtv\\\'"?e'))
            tags.add('simple escape')
        elif k == 6:
            v = ch.bits(ch.r(1, 8))
            out.append('\\%s' % ch.of(['%o', '%03o', '%o'])% v)
            tags.add('octal escape')
        elif k == 7:
            v = ch.bits(ch.r(1, 8 * width))
            out.append('\\x' + case_mix(ch, '%x' % v).rjust(ch.of([1, 2, 6]), '0'))
            tags.add('hex escape')
            if not single:
                out.append(ch.of(['" %s"' % '', 'g', 'G', ' ', 'z', '\\0']) if delim == '"' else '')
        elif k == 8 and (not single or width > 1):
            c = codepoint(ch)
            if single and width == 2:
                c &= 0xffff
                if c < 0xa0 or 0xd800 <= c < 0xe000:
                    c = 0x20ac
            out.append('\\u%04x' % c if c < 0x10000 and ch.n(2) else '\\U%08X' % c)
            tags.add('universal character name')
        elif k == 9 and (not single or width > 1):
            c = codepoint(ch)
            if single and width == 2:
                c &= 0xffff
                if c < 0xa0 or 0xd800 <= c < 0xe000:
                    c = 0x20ac
            out.append(chr(c).encode('utf-8').decode('latin-1'))      # files are written as Latin-1
            tags.add('UTF-8 source character')
        elif k == 10 and not single:
            out.append('\\0' + ch.of(['', '1', '12', '8', '9a']))
            tags.add('embedded zero')
        else:
            out.append(ch.of(["'" if delim == '"' else '"', '/', '*', '//', '#', '%']) if not single else ch.of('/*#%"' if delim == "'" else "'"))
    return ''.join(out), tags


def char_lit(ch):
    p = ch.of(['', '', 'L', 'u', 'U'])
    w = {'': 1, 'L': 2, 'u': 2, 'U': 4}[p]
    t, tags = chars(ch, w, "'", 1, True)
    return "%s'%s'" % (p, t), tags | {'character %s' % (p or 'plain')}


def str_lit(ch):
    """(text, character width, tags)"""
    p = ch.of(['', '', 'u8', 'L', 'u', 'U'])
    w = {'': 1, 'u8': 1, 'L': 2, 'u': 2, 'U': 4}[p]
    parts, tags = [], set()
    np = ch.of([1, 1, 1, 2, 3])
    first = ch.n(np)
    for i in range(np):
        t, tg = chars(ch, w, '"', ch.of([0, 1, 2, 3, 5, 8, 20]))
        tags |= tg
        if ch.n(12) == 0 and t and '\\' not in t and '"' not in t:
            k = ch.n(len(t) + 1)
            while k < len(t) and 0x80 <= ord(t[k]) < 0xc0:
                k -= 1      # not inside a character
            t = t[:k] + '\\\n' + t[k:]
            tags.add('spliced line in string')
        parts.append('%s"%s"' % (p if i == first or ch.n(2) else '', t))
    if np > 1:
        tags.add('concatenation')
    return ch.of([' ', '\n', ' /**/ ']).join(parts), w, tags | {'string %s' % (p or 'plain')}


CT = {1: 'char', 2: 'unsigned short', 4: 'unsigned int'}


def both(a, h):
    return (a, h)


def gen_lit(ch):
    """items have a text for the reference and one for hlc, which differ only in separators and 0o prefixes"""
    da, dh, ba, bh = [], [], [], []
    tags = set()

    def emit(a, h=None):
        ba.append(a)
        bh.append(a if h is None else h)

    def decl(a, h=None):
        da.append(a)
        dh.append(a if h is None else h)
    n = ch.r(2, 10)
    for i in range(n):
        k = ch.n(12)
        if k < 3:
            a, h, t = int_lit(ch)
            tags |= t
            small = 'i8' in a.lower() or 'i16' in a.lower()
            f = ch.n(8)
            if f < 3 or small:
                x = 'h_log((u64)%s); h_log(sizeof(%s)); h_log((%s) * 0 - 1 < 0);'
                x += ' h_log((u64)(~%s)); h_log((u64)(-%s));' if not small else ''
                c = x.count('%s')
                emit(x % ((a,) * c), x % ((h,) * c))
            elif f == 3:
                x = 'static %s gi@_%d = %%s;\n' % (ch.of(['int', 'unsigned char', 'unsigned long long', 'short', 'double', 'float']), i)
                if ch.n(2):
                    x = 'static struct { char c; unsigned long long v; } gi@_%d = {1, %%s};\n' % i
                    decl(x % a, x % h)
                    emit('h_log(gi@_%d.v);' % i)
                else:
                    decl(x % a, x % h)
                    emit('h_log(gi@_%d == 0); h_mem(&gi@_%d, sizeof(gi@_%d));' % (i, i, i))
            elif f == 4:
                x = 'switch (%%s) { case %%s: h_log(1); break; default: h_log(2); }'
                x = 'switch (%s) { case %s: h_log(1); break; default: h_log(2); }'
                emit(x % (a, a), x % (h, h))
            elif f == 5:
                x = '\n#if %s %s %s\nh_log(1);\n#else\nh_log(2);\n#endif\n'
                a2, h2, _ = int_lit(ch)
                if 'i' in (a + a2).lower():
                    emit('h_log((u64)(%s));' % a, 'h_log((u64)(%s));' % h)
                else:
                    op = ch.of(['<', '==', '>', '!='])
                    emit(x % (a, op, a2), x % (h, op, h2))
            elif f == 6:
                op = ch.of(['+', '-', '*', '>>', '|', '^', '&', '<'])
                a2, h2, t2 = int_lit(ch)
                if op == '>>':
                    a2 = h2 = str(ch.n(31))
                if op in '+*-' and 'u' not in a.lower():
                    op = '^'
                emit('h_log((u64)(%s %s %s));' % (a, op, a2), 'h_log((u64)(%s %s %s));' % (h, op, h2))
            else:
                emit('h_log(_Generic(%s, int: 1, unsigned int: 2, long long: 3, unsigned long long: 4, default: sizeof(%s) == 4 ? (%s) * 0 - 1 < 0 ? 1 : 2 : 5));' % (a, a, a),
                     'h_log(_Generic(%s, int: 1, unsigned int: 2, long long: 3, unsigned long long: 4, default: 5));' % h)
        elif k < 6:
            a, f32, t = float_lit(ch)
            tags |= t
            f = ch.n(6)
            log = 'h_f32' if f32 else 'h_f64'
            T = 'float' if f32 else 'double'
            if f < 2:
                emit('%s(%s); h_log(sizeof(%s));' % (log, a, a))
            elif f == 2:
                decl('static %s gf@_%d = %s;\n' % (T, i, a))
                emit('%s(gf@_%d);' % (log, i))
            elif f == 3:
                decl('static %s gf@_%d[] = {1, %s, %s};\n' % (T, i, a, '-' + a))
                emit('h_mem(gf@_%d, sizeof(gf@_%d));' % (i, i))
            elif f == 4:
                emit('{ volatile %s v = %s; %s(v); h_log(v == %s); h_f64((double)v); }' % (T, a, log, a))
            else:
                decl('static %s ff@_%d(void){ return %s; }\n' % (T, i, a))
                emit('%s(ff@_%d() + 0);' % (log, i))
        elif k < 8:
            a, t = char_lit(ch)
            tags |= t
            f = ch.n(6)
            if f < 2:
                emit('h_log((u64)(long long)%s); h_log(sizeof(%s)); h_log(%s * 0 - 1 < 0);' % (a, a, a))
            elif f == 2:
                decl('static %s gc@_%d[] = {%s, %s};\n' % (ch.of(['char', 'unsigned short', 'int', 'unsigned int', 'long long']), i, a, ch.of(["'a'", '0', "L'x'"])))
                emit('h_mem(gc@_%d, sizeof(gc@_%d));' % (i, i))
            elif f == 3:
                emit('switch (%s) { case %s: h_log(3); break; default: h_log(4); }' % (a, a))
            elif f == 4:
                decl('enum { ec@_%d = %s };\n' % (i, a if not a.startswith('U') else "'a'"))
                emit('h_log((u64)(long long)ec@_%d);' % i)
            else:
                if a[0] in 'LuU':
                    emit('h_log(%s + 1 > 0);' % a)
                else:
                    emit('\n#if %s %s %d\nh_log(5);\n#else\nh_log(6);\n#endif\n' % (a, ch.of(['<', '==', '>']), ch.n(300) - 50))
        else:
            a, w, t = str_lit(ch)
            tags |= t
            f = ch.n(10)
            T = CT[w]
            if f < 3:
                emit('h_log(sizeof(%s)); h_mem(%s, sizeof(%s));' % (a, a, a))
            elif f == 3:
                decl('static %s gs@_%d[] = %s;\n' % (T, i, a))
                emit('h_mem(gs@_%d, sizeof(gs@_%d));' % (i, i))
            elif f == 4:
                decl('static %s gs@_%d[%d] = %s;\n' % (T, i, 200, a))
                emit('h_mem(gs@_%d, sizeof(gs@_%d));' % (i, i))
            elif f == 5:
                decl('static %s *gp@_%d = (%s *)%s;\n' % (T, i, T, a))
                emit('h_mem(gp@_%d, sizeof(%s));' % (i, a))
            elif f == 6:
                emit('{ %s l[] = %s; h_log(sizeof(l)); h_mem(l, sizeof(l)); }' % (T, a))
            elif f == 7:
                emit('{ int i; for (i = 0; i < sizeof(%s) / sizeof(%s); i++) h_log(%s[i]); }' % (a, T, a if a.count('"') == 2 else '(%s)' % a))
            elif f == 8:
                decl('static struct { char c; %s s[%d]; char d; } gt@_%d = {1, %s, 2};\n' % (T, 200, i, a))
                emit('h_mem(&gt@_%d, sizeof(gt@_%d));' % (i, i))
            else:
                decl('static struct { %s *p; int n; } gq@_%d[2] = {{(%s *)%s, 3}, {(%s *)%s, 4}};\n' % (T, i, T, a, T, '"x"' if w == 1 else '%s"x"' % {2: 'L', 4: 'U'}[w]))
                emit('h_mem(gq@_%d[0].p, sizeof(%s)); h_mem(gq@_%d[1].p, %d); h_log(gq@_%d[1].n);' % (i, a, i, 2 * w, i))
    return Case(''.join(da), '\n'.join(ba), nontrivial=n >= 3 and len(tags) >= 2, tags=sorted(tags), decls_hlc=''.join(dh), body_hlc='\n'.join(bh))


class LitWorker(DiffWorker):
    max_log = 400

    def gen(self, ch):
        return gen_lit(ch)
