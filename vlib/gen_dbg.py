"""C16: programs whose lines, functions, variables and types are known, compared with what llvm-pdbutil reads from the debug information"""
import hashlib, os, re, subprocess
from .core import *
from .diff import *
from .pe import PE

PDBUTIL = '/usr/bin/llvm-pdbutil-18'
INTS = {'u8': ('int', 1, 0), 's8': ('int', 1, 1), 'char': ('int', 1, 1), 'u16': ('int', 2, 0), 's16': ('int', 2, 1), 'u32': ('int', 4, 0), 's32': ('int', 4, 1), 'int': ('int', 4, 1),
        'u64': ('int', 8, 0), 's64': ('int', 8, 1), 'unsigned': ('int', 4, 0), 'long long': ('int', 8, 1)}
FLTS = {'float': ('flt', 4), 'double': ('flt', 8)}
TYPES = '''typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long long u64; typedef signed char s8; typedef short s16; typedef int s32; typedef long long s64;'''
IMPORT = '__declspec(dllimport) void h_log(u64);'


# ---------------------------------------------------------------- types: ('int', size, signed) ('flt', size) ('ptr', t) ('arr', t, bytes) ('rec', name) ('fn', ret, args) ('void',)
class Ty:
    def __init__(self, canon, size, align, pre, post=''):
        self.c, self.size, self.align, self.pre, self.post = canon, size, align, pre, post

    def decl(self, name):
        return '%s %s%s' % (self.pre, name, self.post)


class DbgGen:
    def __init__(self, ch):
        self.ch = ch
        self.k = 0
        self.magics = {}         # magic -> (file, first line, own line, function, names of every scope from the outermost)
        self.vars = {}           # id -> (function, name, canon, magic of its scope)
        self.globs = {}          # id -> (name, canon, static)
        self.funcs = {}          # name -> (canon, static, file)
        self.recs = {}           # name -> (kind, size, [(name, canon, offset)])
        self.enums = {}          # tag -> [(name, value)]
        self.tags = set()
        self.rectys = []
        self.files = {}
        self.gobjs = {}          # type name -> object of that type
        self.used = set()

    def uid(self):
        self.k += 1
        return self.k

    def magic(self, least=0):
        # 9b and d7 next to each other do not occur in the code around: no instruction hlc writes contains or starts with them
        i = self.ch.n(126 * 85 * 3) + self.uid()
        while 1:
            i = (i + 1) % (126 * 85 * 3)
            m = (1 + i % 126) << 24 | (0x9bd7, 0xd79b, 0x9b9b)[i // 126 % 3] << 8 | i // 378 * 3        # (m + 2 is no other number)
            if m not in self.used and m >= least:
                self.used.add(m)
                return m

    # types
    def scalar(self):
        ch = self.ch
        k = ch.n(10)
        if k < 6:
            n = ch.of(sorted(INTS))
            return Ty(INTS[n], INTS[n][1], INTS[n][1], n)
        if k < 8:
            n = ch.of(sorted(FLTS))
            return Ty(FLTS[n], FLTS[n][1], FLTS[n][1], n)
        return self.pointer()

    def pointer(self):
        ch = self.ch
        k = ch.n(5)
        if k == 0:
            return Ty(('ptr', ('void',)), 8, 8, 'void *')
        if k == 1 and self.rectys:
            t = ch.of(self.rectys)
            return Ty(('ptr', t.c), 8, 8, t.pre + ' *')
        if k == 2:
            a, b = ch.of(sorted(INTS)), ch.of(sorted(INTS))
            return Ty(('ptr', ('fn', INTS[a], (INTS[b], ('flt', 8)))), 8, 8, a + ' (*', ')(%s, double)' % b)
        n = ch.of(sorted(INTS))
        if k == 3:
            return Ty(('ptr', ('ptr', INTS[n])), 8, 8, n + ' **')
        return Ty(('ptr', INTS[n]), 8, 8, n + ' *')

    def type(self, depth=0):
        ch = self.ch
        k = ch.n(10)
        if k < 6:
            return self.scalar()
        if k < 8 and self.rectys:
            return ch.of(self.rectys)
        if depth < 2:
            t = self.type(depth + 1)
            n = ch.of([1, 2, 3, 7, 16, 100])
            if t.size * n > 5000:
                n = 1
            if '(*' in t.pre:
                return Ty(('arr', t.c, t.size * n), t.size * n, t.align, t.pre, '[%d]%s' % (n, t.post))
            return Ty(('arr', t.c, t.size * n), t.size * n, t.align, t.pre, '[%d]%s' % (n, t.post))
        return self.scalar()

    def record(self, o):
        ch = self.ch
        kind = ch.of(['struct', 'struct', 'struct', 'union'])
        name = '%s%d' % (ch.of(['S', 'Node', 'a_rather_long_name_of_a_structure_', 'T_']), self.uid())
        td = ch.chance(1, 3)
        off = size = 0
        align = 1
        unit = None              # (size, offset, bits used)
        fields = []
        o.append('%s%s %s {' % ('typedef ' if td else '', kind, name))
        for _ in range(ch.r(1, 7)):
            f = 'm%d' % self.uid()
            if ch.chance(1, 5):
                n = ch.of(['int', 'unsigned', 'u8', 'u16', 'u64', 's16'])
                c = INTS[n]
                w = ch.r(1, c[1] * 8)
                if kind == 'union' or unit is None or unit[0] != c[1] or unit[2] + w > c[1] * 8:
                    at = 0 if kind == 'union' else (off + c[1] - 1) // c[1] * c[1]
                    unit = (c[1], at, 0)
                    off = at + c[1]
                fields.append((f, ('bits', c, unit[2], w), unit[1]))
                o.append('    %s %s : %d;' % (n, f, w))
                unit = (unit[0], unit[1], unit[2] + w)
                if kind != 'union':       # (Microsoft's compiler ignores the alignment of bit-fields in unions)
                    align = max(align, c[1])
                size = max(size, unit[1] + c[1])
                self.tags.add('bit-field')
                continue
            unit = None
            if ch.chance(1, 8):
                # anonymous structure or union: its members are members of the outer one
                ik = ch.of(['struct', 'union'])
                a, b = self.scalar(), self.scalar()
                fa, fb = 'm%d' % self.uid(), 'm%d' % self.uid()
                al = max(a.align, b.align)
                ob = 0 if ik == 'union' else (a.size + b.align - 1) // b.align * b.align
                sz = (max(a.size, ob + b.size) + al - 1) // al * al
                at = 0 if kind == 'union' else (off + al - 1) // al * al
                fields += [(fa, a.c, at), (fb, b.c, at + ob)]
                o.append('    %s { %s; %s; };' % (ik, a.decl(fa), b.decl(fb)))
                self.tags.add('anonymous member')
            else:
                if ch.chance(1, 6):
                    t = Ty(('ptr', ('rec', name)), 8, 8, '%s %s *' % (kind, name))
                    self.tags.add('pointer to itself')
                else:
                    t = self.type()
                al, sz = t.align, t.size
                at = 0 if kind == 'union' else (off + al - 1) // al * al
                fields.append((f, t.c, at))
                o.append('    %s;' % t.decl(f))
            align = max(align, al)
            off = at + sz
            size = max(size, off)
        size = (size + align - 1) // align * align
        if td:
            o.append('} %s_t;' % name)
            self.tags.add('typedef')
        else:
            o.append('};')
        self.recs[name] = (kind, size, fields)
        t = Ty(('rec', name), size, align, name + '_t' if td else kind + ' ' + name)
        self.rectys.append(t)
        g = 'obj%d' % self.uid()
        o.append('%s;' % t.decl(g))
        self.gobjs[t.c] = g
        self.glob(g, t.c, False)

    def glob(self, name, c, static):
        i = self.uid()
        self.globs[i] = (name, c, static)
        return i

    def filler(self, o):
        ch = self.ch
        k = ch.n(12)
        if k == 0:
            o.append('')
        elif k == 1:
            o += ['/* one', '', 'two */']
        elif k == 2:
            o += ['// a comment that goes on \\', '   in the next line']
        elif k == 3:
            o += ['#if 0', 'nothing of this', '#endif']
        elif k == 4:
            o += ['', '\t', '']

    # statements; scope: list of [names], outermost first
    def stmts(self, o, file, fn, scope, depth, n):
        ch = self.ch
        for _ in range(n):
            self.filler(o)
            k = ch.weighted([(5, 'add'), (3, 'var'), (2, 'if'), (2, 'for'), (1, 'for3'), (1, 'do'), (1, 'switch'), (2, 'block'), (1, 'multi'), (2, 'call'), (1, 'macro'), (1, 'label'), (1, 'static'), (1, 'asm'), (1, 'two')])
            if depth > 2 and k in ('if', 'for', 'for3', 'do', 'switch', 'block'):
                k = 'add'
            ind = '    ' * (depth + 1)
            m = self.magic()
            here = len(o) + 1

            def mark(m, first, own, sc=None):
                self.magics[m] = (file, first, own, fn, list(sc or scope))
            if k == 'add':
                o.append(ind + ch.of(['acc += 0x%x;', 'acc ^= 0x%x;', 'acc = acc * 3 + 0x%x;', 'acc -= (acc & 0x%x) + 1;']) % m)
                mark(m, here, here)
            elif k == 'two':
                m2 = self.magic()
                o.append(ind + 'acc += 0x%x; acc ^= 0x%x;' % (m, m2))
                mark(m, here, here)
                mark(m2, here, here)
            elif k == 'macro':
                o.append(ind + 'BUMP(0x%x);' % m)
                mark(m, here, here)
                self.tags.add('macro')
            elif k == 'var':
                self.local(o, ind, file, fn, scope)
            elif k == 'static':
                t = self.scalar()
                name = 'st%d' % self.uid()
                o.append(ind + 'static %s;' % t.decl(name))
                i = self.glob(name, t.c, None)
                o.append(ind + 'GLOB(%d, %s);' % (i, name))
                self.tags.add('static local')
            elif k == 'if':
                o.append(ind + 'if(acc != 0x%x){' % m)
                mark(m, here, here)
                self.scope(o, file, fn, scope, depth)
                if ch.chance(1, 2):
                    o.append(ind + '}else{')
                    self.scope(o, file, fn, scope, depth)
                o.append(ind + '}')
            elif k == 'for':
                i = 'i%d' % self.uid()
                o.append(ind + 'for(u32 %s = 0x%x; %s != 0x%xu + 2; %s++){' % (i, m, i, m, i))
                inner = scope + [[i]]
                mark(m, here, here, inner)
                self.scope(o, file, fn, inner, depth)
                o.append(ind + '}')
            elif k == 'for3':
                i = 'i%d' % self.uid()
                m2, m3 = self.magic(), self.magic(0x40000000)
                inner = scope + [[i]]
                o.append(ind + 'for(u64 %s = 0x%x;' % (i, m))
                o.append(ind + '    %s < 0x%x;' % (i, m2))
                o.append(ind + '    %s += 0x%x){' % (i, m3))
                mark(m, here, here, inner)
                mark(m2, here, here + 1, inner)
                mark(m3, here, here + 2, inner)
                self.scope(o, file, fn, inner, depth)
                o.append(ind + '}')
            elif k == 'do':
                o.append(ind + 'do{')
                self.scope(o, file, fn, scope, depth)
                o.append(ind + '}while((acc & 0xff) == 0x%x);' % m)
                mark(m, here, len(o))
            elif k == 'switch':
                o.append(ind + 'switch(acc & 0x%x){' % m)
                mark(m, here, here)
                o.append(ind + '  case 0:{')
                self.scope(o, file, fn, scope, depth)
                o.append(ind + '  }break;')
                m2 = self.magic()
                o.append(ind + '  case 0x101: acc += 0x%x; break;' % m2)
                mark(m2, len(o), len(o))
                o.append(ind + '  default:{')
                self.scope(o, file, fn, scope, depth)
                o.append(ind + '  }')
                o.append(ind + '}')
                self.tags.add('switch')
            elif k == 'block':
                o.append(ind + '{')
                self.scope(o, file, fn, scope, depth)
                o.append(ind + '}')
            elif k == 'multi':
                m2 = self.magic()
                o += [ind + 'acc', ind + ' = acc * 5', ind + '  + 0x%x' % m, '', ind + '  - (acc & 0x%x);' % m2]
                mark(m, here, here + 2)
                mark(m2, here, here + 4)
                self.tags.add('statement of several lines')
            elif k == 'call' and self.callable:
                f, ps = ch.of(self.callable)
                args = []
                for c in ps:
                    if c == ('int', 8, 0) or c == ('int', 4, 0):
                        mm = self.magic()
                        args.append('0x%x' % mm)
                        mark(mm, here, here)
                    else:
                        args.append('1' if c[0] == 'int' else '1.5' if c[0] == 'flt' else '0' if c[0] == 'ptr' else self.gobjs[c])
                o.append(ind + 'acc += %s(%s);' % (f, ', '.join(args)))
            elif k == 'label':
                l = 'l%d' % self.uid()
                o.append(ind + 'if(acc == 0x%x) goto %s;' % (m, l))
                mark(m, here, here)
                self.filler(o)
                m2 = self.magic()
                o.append(ind + '%s: acc += 0x%x;' % (l, m2))
                mark(m2, len(o), len(o))
            elif k == 'asm':
                o.append(ind + '__asm__ {')
                o.append(ind + '    mov eax, 0x%x' % m)
                m2 = self.magic()
                o.append(ind + '    add eax, 0x%x' % m2)
                o.append(ind + '}')
                mark(m, here, here + 1)
                mark(m2, here, here + 2)
                self.tags.add('asm')

    def local(self, o, ind, file, fn, scope):
        ch = self.ch
        t = self.type()
        # a third of the names shadow a variable of an outer scope
        outer = [n for s in scope[:-1] for n in s if n not in scope[-1] and n not in ('acc', 'fp') and not n.startswith('i')]
        if len(scope) > 1 and outer and ch.chance(1, 3):
            name = ch.of(outer)
            self.tags.add('shadowed')
        else:
            name = '%s%d' % (ch.of(['v', 'a_long_name_of_a_variable_', 'V']), self.uid())
        scope[-1].append(name)
        i = self.uid()
        o.append(ind + '%s;' % t.decl(name))
        o.append(ind + 'LOC(%d, %s);' % (i, name))
        self.pending[-1].append((i, name, t.c))

    def scope(self, o, file, fn, scope, depth, n=None):
        ch = self.ch
        sc = scope + [[]]
        self.pending.append([])
        if ch.chance(1, 2):
            self.local(o, '    ' * (depth + 2), file, fn, sc)
        self.stmts(o, file, fn, sc, depth + 1, ch.r(0, 3) if n is None else n)
        m = self.magic()
        o.append('    ' * (depth + 2) + 'acc += 0x%x;' % m)
        self.magics[m] = (file, len(o), len(o), fn, sc)
        for i, name, c in self.pending.pop():
            self.vars[i] = (fn, name, c, m)

    def function(self, o, file, static, name=None):
        ch = self.ch
        name = name or '%s%d' % (ch.of(['f', 'fn_', 'a_function_with_a_long_name_', 'F']), self.uid())
        ps = []
        for _ in range(0 if name == 't0' else ch.r(0, 6)):
            t = self.scalar() if ch.chance(2, 3) or not self.rectys else ch.of(self.rectys)
            ps.append(('p%d' % self.uid(), t))
        ret = INTS['u64'] if name != 't0' else ('void',)
        head = '%s%s %s(%s)' % ('static ' if static else '__declspec(dllexport) ' if name == 't0' or ch.chance(1, 4) else '', 'u64' if ret != ('void',) else 'void', name,
                                ch.of([', ', ',\n  ']).join(t.decl(p) for p, t in ps) or ch.of(['void', '']))
        head += ch.of(['{', '\n{', ' {'])
        o += head.split('\n')
        scope = [['acc', 'fp'] + [p for p, t in ps]]
        self.pending = [[]]
        o += ['    u64 acc = 1, fp;', '    __asm__ { mov fp, rbp }']
        for p, t in ps:
            if t.c[0] == 'rec' and t.size not in (1, 2, 4, 8):
                continue      # passed by reference
            i = self.uid()
            o.append('    LOC(%d, %s);' % (i, p))
            self.pending[-1].append((i, p, t.c))
        self.stmts(o, file, name, scope, 0, ch.r(1, 6))
        m = self.magic()
        if name == 't0':
            # everything is called and all globals are reported
            for f, cs in self.callable:
                o.append('    acc += %s(%s);' % (f, ', '.join('1' if c[0] == 'int' else '1.5' if c[0] == 'flt' else '0' if c[0] == 'ptr' else self.gobjs[c] for c in cs)))
            for i, (g, c, st) in sorted(self.globs.items()):
                if st is not None:
                    o.append('    GLOB(%d, %s);' % (i, g))
        o.append('    acc += 0x%x;' % m)
        self.magics[m] = (file, len(o), len(o), name, scope)
        for i, n, c in self.pending.pop():
            self.vars[i] = (name, n, c, m)
        if ret != ('void',):
            m = self.magic()
            o.append('    return acc ^ 0x%x;' % m)
            self.magics[m] = (file, len(o), len(o), name, scope)
        o.append('}')
        self.funcs[name] = (('fn', ret, tuple(t.c for p, t in ps)), static, file, scope[0])
        if name != 't0':
            self.callable.append((name, [t.c for p, t in ps]))

    def program(self):
        ch = self.ch
        self.callable = []
        head = [TYPES, IMPORT, '#define BUMP(x) acc += (x)',
                '#define LOC(id, x) h_log((u64)(id) << 32 | (u32)((u64)&(x) - fp))', '#define GLOB(id, x) h_log((u64)(id) << 32 | (u32)((u64)&(x) - (u64)t0))']
        a = list(head) + ['void t0(void);']
        nf = ch.weighted([(3, 1), (2, 2)])
        hdr = None
        if ch.chance(1, 3):
            hdr = []
        for _ in range(ch.r(0, 3)):
            self.record(a)
            self.filler(a)
        if ch.chance(1, 2):
            tag = 'E%d' % self.uid()
            v = 0
            l = []
            for _ in range(ch.r(1, 5)):
                n = 'K%d' % self.uid()
                if ch.chance(1, 2):
                    v = ch.of([-1, 0, 5, 127, 128, 32767, 32768, 65535, 65536, 2147483647 - 9, -128, -129, -32768, -32769, -2147483648])
                    l.append((n, v, '%s = %d' % (n, v) if v != -2147483648 else '%s = (-2147483647-1)' % n))
                else:
                    l.append((n, v, n))
                v += 1
            self.enums[tag] = [(n, x) for n, x, _ in l]
            a.append('enum %s { %s };' % (tag, ', '.join(t for _, _, t in l)))
            g = 'e%d' % self.uid()
            a.append('enum %s %s;' % (tag, g))
            self.glob(g, ('enum', tag), False)
            self.tags.add('enum')
        if ch.chance(1, 30):
            # enough records that fields, types and symbols need more than one page, list or index entry
            for i in range(ch.of([40, 150, 400])):
                n = 'Bulk%d_%s' % (self.uid(), 'x' * (i % 60))
                m = 'm%d' % self.uid()
                self.recs[n] = ('struct', 8, [(m, ('int', 4, 1), 0), (m + 'y', ('ptr', ('rec', n)), 8)])
                self.recs[n] = ('struct', 16, self.recs[n][2])
                a.append('struct %s { int %s; struct %s *%sy; } bulk%d;' % (n, m, n, m, i))
                self.glob('bulk%d' % i, ('rec', n), False)
            self.tags.add('many types')
        if ch.chance(1, 30):
            tag = 'Big%d' % self.uid()
            k = ch.of([500, 2500, 6000])
            self.enums[tag] = [('Z%d_%s' % (i, 'y' * (i % 30)), i * 7) for i in range(k)]
            a.append('enum %s { %s } big;' % (tag, ', '.join('%s = %d' % x for x in self.enums[tag])))
            self.glob('big', ('enum', tag), False)
            self.tags.add('large enumeration')
        for _ in range(ch.r(1, 5)):
            t = self.type()
            st = ch.chance(1, 3)
            g = 'g%d' % self.uid()
            a.append('%s%s%s;' % ('static ' if st else '', t.decl(g), ' = {0}' if t.c[0] in ('arr', 'rec') and ch.chance(1, 2) else ' = 7' if t.c[0] == 'int' and ch.chance(2, 3) else ''))
            self.glob(g, t.c, st)
        if hdr is not None:
            self.filler(hdr)
            self.function(hdr, 'h.h', True)
            self.files['h.h'] = hdr
            a.append('#include "h.h"')
            self.tags.add('function in a header')
        b = None
        own = self.callable
        self.callable = []
        if nf == 2:
            b = list(head) + ['void t0(void);']
            for _ in range(ch.r(0, 1)):
                self.record(b)
            self.filler(b)
            for _ in range(ch.r(1, 2)):
                self.function(b, 'b.c', False)
            self.tags.add('two files')
        self.callable = own + self.callable
        for _ in range(ch.r(0, 4)):
            self.filler(a)
            self.function(a, 'a.c', ch.chance(1, 2))
        self.filler(a)
        self.function(a, 'a.c', False, 't0')
        self.files['a.c'] = a
        if b:
            self.files['b.c'] = b
        return {n: '\n'.join(l) + '\n' for n, l in self.files.items()}


# ---------------------------------------------------------------- reading what llvm-pdbutil prints
SIMPLE = {0x68: ('int', 1, 1), 0x69: ('int', 1, 0), 0x72: ('int', 2, 1), 0x73: ('int', 2, 0), 0x74: ('int', 4, 1), 0x75: ('int', 4, 0), 0x76: ('int', 8, 1), 0x77: ('int', 8, 0),
          0x10: ('int', 1, 1), 0x20: ('int', 1, 0), 0x70: ('int', 1, 1), 0x11: ('int', 2, 1), 0x21: ('int', 2, 0), 0x12: ('int', 4, 1), 0x22: ('int', 4, 0), 0x13: ('int', 8, 1), 0x23: ('int', 8, 0),
          0x30: ('int', 1, 0), 0x40: ('flt', 4), 0x41: ('flt', 8), 0x03: ('void',)}


class Pdb:
    def __init__(self, text):
        self.problems = []
        self.types = {}
        self.recs = {}
        self.enums = {}
        cur = None
        self.lines = []          # (section, begin, end, [(line, offset)], file)
        self.md5 = {}
        self.procs = []
        self.globals = []
        self.consts = {}
        stack = []
        file = None
        sect = ''
        self.sections = {}
        self.guid = self.age = None
        last = None
        for l in text.split('\n'):
            m = re.match(r'^ {10,}([A-Z][A-Za-z ()]+?) *$', l)
            if m:
                sect = m.group(1)
                continue
            if sect == 'Summary':
                m = re.match(r'  GUID: (\S+)', l)
                if m:
                    self.guid = m.group(1)
                m = re.match(r'  Age: (\d+)', l)
                if m:
                    self.age = int(m.group(1))
            elif sect == 'Lines':
                m = re.match(r'^(\S.*?) \((MD5: (\w+)|[^)]*)\) *$', l)
                if m and not l.startswith('Mod '):
                    file = m.group(1).replace('\\', '/').split('/')[-1]
                    if file in self.md5 and self.md5[file] != m.group(3):
                        self.problems.append('two checksums of ' + file)
                    self.md5[file] = m.group(3)
                    continue
                m = re.match(r'^  (\w{4}):(\w{8})-(\w{8}), line/addr entries = (\d+)', l)
                if m:
                    last = (int(m.group(1), 16), int(m.group(2), 16), int(m.group(3), 16), [], file, int(m.group(4)))
                    self.lines.append(last)
                    continue
                if last and re.match(r'^ +\d+ [0-9A-F]{8}', l):
                    for a, b in re.findall(r'(\d+) ([0-9A-F]{8})', l):
                        last[3].append((int(a), int(b, 16)))
            elif sect == 'Symbols':
                m = re.match(r'^ +(\d+) \| (S_\w+) \[size = \d+\](?: `(.*)`)?', l)
                if m:
                    off, kind, name = int(m.group(1)), m.group(2), m.group(3)
                    last = dict(kind=kind, name=name, off=off, vars=[], blocks=[])
                    if kind in ('S_GPROC32', 'S_LPROC32', 'S_GPROC32_ID', 'S_LPROC32_ID'):
                        if stack:
                            self.problems.append('procedure %s inside of another one' % name)
                        self.procs.append(last)
                        stack.append(last)
                    elif kind in ('S_BLOCK32',):
                        if not stack:
                            self.problems.append('block outside of a procedure')
                        else:
                            last['up'] = stack[-1]
                            stack[-1]['blocks'].append(last)
                            stack.append(last)
                    elif kind in ('S_END', 'S_PROC_ID_END'):
                        if not stack:
                            self.problems.append('an S_END too many')
                        else:
                            p = stack.pop()
                            if p.get('end') != off:
                                self.problems.append('the end of %s is said to be at %s and is at %d' % (p['name'], p.get('end'), off))
                    elif kind == 'S_REGREL32' and stack:
                        stack[-1]['vars'].append(last)
                    elif kind in ('S_GDATA32', 'S_LDATA32'):
                        self.globals.append(last)
                    continue
                self.attrs(last, l)
            elif sect == 'Global Symbols':
                m = re.match(r'^ +(\d+) \| (S_\w+) \[size = \d+\](?: `(.*)`)?', l)
                if m:
                    last = dict(kind=m.group(2), name=m.group(3), off=int(m.group(1)))
                    if last['kind'] in ('S_GDATA32', 'S_LDATA32', 'S_PROCREF', 'S_LPROCREF', 'S_CONSTANT', 'S_UDT'):
                        self.globals.append(last)
                    continue
                self.attrs(last, l)
            elif sect.startswith('Types'):
                m = re.match(r'^ +0x(\w+) \| (LF_\w+) \[size = \d+(?:, hash = \w+)?\](?: `(.*)`)?', l)
                if m:
                    cur = dict(kind=m.group(2), name=m.group(3), text=[])
                    self.types[int(m.group(1), 16)] = cur
                elif cur is not None:
                    cur['text'].append(l)
            elif sect == 'Section Headers':
                m = re.match(r'^ +SECTION HEADER #(\d+)', l)
                if m:
                    cur_s = int(m.group(1))
                    self.sections[cur_s] = {}
                m = re.match(r'^ +(\w+) (virtual size|virtual address|name)', l)
                if m:
                    self.sections[cur_s][m.group(2)] = m.group(1)
        if stack:
            self.problems.append('procedure %s is not ended' % stack[0]['name'])
        for i, t in self.types.items():
            t['all'] = '\n'.join(t['text'])
        for i, t in sorted(self.types.items()):
            if t['kind'] in ('LF_STRUCTURE', 'LF_UNION') and 'forward ref' not in t['all']:
                m = re.search(r'field list: 0x(\w+)', t['all'])
                z = re.search(r'sizeof (\d+)', t['all'])
                self.recs.setdefault(t['name'], []).append((t['kind'], int(z.group(1)), self.fields(int(m.group(1), 16)) if m else []))
            elif t['kind'] in ('LF_STRUCTURE', 'LF_UNION'):
                t['fwd'] = re.search(r'forward ref \(-> 0x(\w+)\)', t['all'])
            elif t['kind'] == 'LF_ENUM':
                m = re.search(r'field list: 0x(\w+)', t['all'])
                if m:
                    o, nx = [], int(m.group(1), 16)
                    while nx in self.types and len(o) < 100000:
                        al = self.types[nx]['all']
                        o = [(a, int(b)) for a, b in re.findall(r'LF_ENUMERATE \[(\w+) = (-?\d+)\]', al)] + o
                        m = re.search(r'LF_INDEX.*?0x(\w+)', al, re.S)
                        nx = int(m.group(1), 16) if m else None
                    self.enums[t['name']] = o

    def attrs(self, s, l):
        if s is None:
            return
        m = re.search(r'addr = (\d+):(\d+)', l)
        if m and 'exception handler' not in l:
            s['addr'] = (int(m.group(1)), int(m.group(2)))
        m = re.search(r'code size = (\d+)', l)
        if m:
            s['size'] = int(m.group(1))
        m = re.search(r'\bend = (\d+)', l)
        if m and 'end' not in s:
            s['end'] = int(m.group(1))
        m = re.search(r'parent = (\d+)', l)
        if m:
            s['parent'] = int(m.group(1))
        m = re.search(r'debug start = (\d+), debug end = (\d+)', l)
        if m:
            s['dbg'] = (int(m.group(1)), int(m.group(2)))
        m = re.search(r'type = `?0x(\w+)', l)
        if m:
            s['type'] = int(m.group(1), 16)
        m = re.search(r'register = (\w+), offset = (\d+)', l)
        if m:
            s['reg'], s['rel'] = m.group(1), int(m.group(2))
        m = re.search(r'value = (-?\d+)', l)
        if m:
            s['value'] = int(m.group(1))
        m = re.search(r'module = (\d+), sum name = \d+, offset = (\d+)', l)
        if m:
            s['ref'] = (int(m.group(1)), int(m.group(2)))

    def fields(self, i):
        t = self.types.get(i)
        return [(a, self.canon(int(b, 16)), int(c)) for a, b, c in re.findall(r'LF_MEMBER \[name = `([^`]*)`, Type = 0x(\w+).*?, offset = (\d+)', t['all'])] if t else None

    def canon(self, i, depth=0):
        if depth > 12:
            return ('deep',)
        if i < 0x1000:
            c = SIMPLE.get(i & 0xff, ('simple', i))
            return ('ptr', c) if i & 0x700 == 0x600 else c if not i & 0x700 else ('simple', i)
        t = self.types.get(i)
        if t is None:
            return ('missing type %x' % i,)
        k, a = t['kind'], t['all']

        def x(rx):
            m = re.search(rx, a)
            return self.canon(int(m.group(1), 16), depth + 1) if m else ('?',)
        if k == 'LF_POINTER':
            return ('ptr', x(r'referent = 0x(\w+)')) if 'kind = ptr64' in a else ('odd pointer',)
        if k == 'LF_MODIFIER':
            return x(r'referent = 0x(\w+)')
        if k == 'LF_ARRAY':
            return ('arr', x(r'element type: 0x(\w+)'), int(re.search(r'size: (\d+)', a).group(1)))
        if k in ('LF_STRUCTURE', 'LF_UNION'):
            return ('rec', t['name'])
        if k == 'LF_ENUM':
            return ('enum', t['name'])
        if k == 'LF_BITFIELD':
            m = re.search(r'type = 0x(\w+).*bit offset = (\d+), # bits = (\d+)', a)
            return ('bits', self.canon(int(m.group(1), 16)), int(m.group(2)), int(m.group(3)))
        if k == 'LF_PROCEDURE':
            al = self.types.get(int(re.search(r'param list = 0x(\w+)', a).group(1), 16))
            return ('fn', x(r'return type = 0x(\w+)'), tuple(self.canon(int(b, 16), depth + 1) for b in re.findall(r'^ +0x(\w+): `|^ +0x(\w+) \(.*?\): `', al['all'], re.M) for b in b if b))
        return (k,)


def same(got, want):
    """enumerations may be described by their underlying type"""
    if got == want:
        return True
    if want[0] == 'enum':
        return got == ('int', 4, 1)
    return False


class DbgWorker(GenWorker):
    max_shrink_s = 30

    def gen(self, ch):
        g = DbgGen(ch)
        fl = g.program()
        mode = ch.of(['image', 'image', 'object'])
        c = GCase('\n'.join(fl[n] for n in sorted(fl)), fl)
        c.data = (g, mode)
        c.nontrivial = len(g.magics) > 5 and len(g.funcs) > 0
        c.tags = sorted(g.tags) + [mode]
        return c

    def judge(self, case):
        g, mode = case.data
        for f in os.listdir(self.px.dir):
            if f.startswith(('a.', 'b.', 'n.', 'h.')):
                os.unlink(os.path.join(self.px.dir, f))
        for n, t in case.fl.items():
            self.px.write(n, t)
        srcs = sorted(n for n in case.fl if n.endswith('.c'))
        logs = {}
        for what in ('debug', 'none'):
            out = 'a' if what == 'debug' else 'n'
            nd = [] if what == 'debug' else ['/no_debug']
            if mode == 'object':
                r = self.px.hlc(['/obj', '/quiet'] + srcs + ['/out:%s.obj' % out] + nd)
                if r.status or r.abnormal:
                    return 'bad', 'hlc fails', r.text[-800:]
                rc, t = self.px.lld_dll([out + '.obj'], out + '.dll', ['/debug', '/pdb:a.pdb'] if what == 'debug' else [])
                if rc or t.strip():
                    return 'bad', 'the linker complains about the object', t[-800:]
            else:
                r = self.px.hlc(['/dll', '/no_entry', '/no_stdlib', '/quiet'] + srcs + ['/out:%s.dll' % out, winpath(BUILD + '/harness6.lib')] + nd)
                if r.status or r.abnormal:
                    return 'bad', 'hlc fails', r.text[-800:]
            l, err, rr = self.px.tests(out + '.dll', ['max=5000'])
            if err or len(l) != 1 or l[0].status:
                return 'bad', 'the program does not run', '%s %r %r' % (what, err, l)
            logs[what] = l[0]
        if len(logs['debug'].vals) != len(logs['none'].vals) or [v >> 32 for v in logs['debug'].vals] != [v >> 32 for v in logs['none'].vals]:
            return 'bad', 'the program behaves differently with debug information', ''
        pdb = os.path.join(self.px.dir, 'a.pdb')
        if not os.path.exists(pdb):
            return 'bad', 'no PDB was written', ''
        p = subprocess.run([PDBUTIL, 'dump', '-summary', '-l', '-symbols', '-globals', '-types', '-section-headers'] + (['-modi=0'] if mode == 'object' else []) + [pdb], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        t = p.stdout.decode('latin-1')
        if p.returncode or re.search(r'^(error|warning|llvm-pdbutil)', t, re.M | re.I):
            return 'bad', 'llvm-pdbutil cannot read the PDB', '\n'.join(l for l in t.split('\n') if re.match('error|warning|llvm-pdbutil', l, re.I))[:800]
        bad = self.check(case, g, mode, Pdb(t), logs['debug'])
        if bad:
            return 'bad', bad.split(':')[0], bad
        if mode == 'image':
            # the hash tables find every name
            names = sorted(set([f for f in g.funcs] + [n for n, c, s in g.globs.values()] + [n for l in g.enums.values() for n, v in l[:50] + l[-200:]]))
            p = subprocess.run([PDBUTIL, 'dump', '-globals'] + ['-global-name=' + n for n in names] + [pdb], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
            found = re.findall(r'\| S_\w+ \[size = \d+\] `(.*)`', p.stdout.decode('latin-1'))
            miss = [n for n in names if n not in found]
            if miss:
                return 'bad', 'names are not found by the hash table of global symbols', ' '.join(miss[:8])
        return 'ok', '', ''

    def check(self, case, g, mode, pdb, log):
        if pdb.problems:
            return 'malformed symbols: ' + '; '.join(pdb.problems[:3])
        data = open(os.path.join(self.px.dir, 'a.dll'), 'rb').read()
        pe = PE(data)
        sec = pe.sections
        if pe.pdb is None:
            return 'no debug directory in the image'
        guid, age, path = pe.pdb
        gs = guid if isinstance(guid, str) else self.guid_text(guid)
        if pdb.guid.strip('{}').upper() != gs.strip('{}').upper() or pdb.age != age:
            return 'GUID or age of image and PDB differ: %s %s %s %s' % (pdb.guid, gs, pdb.age, age)
        if not path.replace('\\', '/').endswith('a.pdb'):
            return 'the image names another PDB: ' + path
        for i, s in enumerate(sec):
            h = pdb.sections.get(i + 1)
            if h is None or int(h['virtual address'], 16) != s['va']:
                return 'section headers of image and PDB differ: %d' % (i + 1)

        def rva(a):
            return sec[a[0] - 1]['va'] + a[1] if 0 < a[0] <= len(sec) else None
        # files
        for f, m in pdb.md5.items():
            if f in case.fl and m is not None and m != hashlib.md5(case.fl[f].encode('latin-1')).hexdigest().upper():
                return 'checksum of a source file: ' + f
        # functions
        procs = {}
        for q in pdb.procs:
            if q['name'] in procs:
                return 'function listed twice: ' + q['name']
            procs[q['name']] = q
            q['rva'] = rva(q['addr'])
        ranges = {a: b for a, b in pe.functions}
        for f, (c, st, file, names) in g.funcs.items():
            q = procs.get(f)
            if q is None:
                return 'function missing: ' + f
            if ranges.get(q['rva']) != q['rva'] + q['size']:
                return 'address range of a function: %s 0x%x+%d, .pdata %r' % (f, q['rva'], q['size'], ranges.get(q['rva']))
            if (q['kind'].startswith('S_L')) != st:
                return 'linkage of a function: %s is %s' % (f, q['kind'])
            if not (0 <= q['dbg'][0] <= q['dbg'][1] <= q['size']):
                return 'debug range of a function: %s %r' % (f, q['dbg'])
            if mode == 'image' and not self.fits(pdb.canon(q['type']), c):
                return 'type of a function: %s is %r, expected %r' % (f, pdb.canon(q['type']), c)
            e = pe.exports.get(f) or pe.exports.get(f.encode())
            if isinstance(e, int) and e != q['rva']:
                return 'address of an exported function: ' + f
            seen = [n['name'] for n in q['vars']]
            if sorted(seen) != sorted(names):
                return 'parameters and locals of a function: %s has %s, expected %s' % (f, sorted(seen), sorted(names))
        # lines
        table = []
        for s, a, b, es, file, n in pdb.lines:
            if len(es) != n or not es:
                return 'line table: %d entries announced, %d found' % (n, len(es))
            base = sec[s - 1]['va']
            if any(not a <= o <= b for l, o in es) or any(x[1] > y[1] for x, y in zip(es, es[1:])):
                return 'line table: entries out of order or outside of 0x%x-0x%x: %r' % (a, b, es)
            table.append((base + a, base + b, es, base, file))
        self.nmag = 0
        text = [s for s in sec if s['name'].startswith('.text')] if isinstance(sec[0].get('name'), str) else [sec[0]]
        code = {f: data[pe.off(q['rva']):pe.off(q['rva']) + q['size']] for f, q in procs.items() if f in g.funcs}
        at = {}
        for m, (file, first, own, f, scopes) in g.magics.items():
            names = [n for s in scopes for n in s]
            pat = m.to_bytes(4, 'little')
            cd = code[f]
            i = cd.find(pat)
            while i >= 0:
                ad = procs[f]['rva'] + i
                at.setdefault(m, ad)
                t = [x for x in table if x[0] <= ad < x[1]]
                if len(t) != 1:
                    return 'line table: %d tables cover the code of line %d of %s' % (len(t), own, file)
                b, e, es, base, fl = t[0]
                if fl != file:
                    return 'line table: code of %s is said to be in %s' % (file, fl)
                line = [l for l, o in es if base + o <= ad]
                if not line or not first <= line[-1] <= own:
                    return 'line table: code of line %d (statement at line %d) of %s has line %s' % (own, first, file, line[-1:] or 'none')
                q = procs[f]
                if not q['dbg'][0] <= i <= q['dbg'][1]:
                    return 'debug range of a function: %s %r does not cover line %d' % (f, q['dbg'], own)
                chain = self.chain(q, ad, rva)
                if chain is None:
                    return 'blocks overlap: in %s' % f
                vis = [v['name'] for blk in chain for v in blk['vars']]
                if sorted(vis) != sorted(names):
                    return 'variables in scope: at line %d of %s %s, expected %s' % (own, file, sorted(vis), sorted(names))
                i = cd.find(pat, i + 1)
        # variables
        run = {}
        for v in log.vals:
            run.setdefault(v >> 32, v & 0xffffffff)
        for i, (f, name, c, m) in g.vars.items():
            ad = at.get(m)
            if ad is None:
                continue
            q = procs[f]
            d = [v for blk in self.chain(q, ad, rva) for v in blk['vars'] if v['name'] == name][-1]
            if d['reg'] != 'RBP':
                return 'variable: %s of %s is relative to %s' % (name, f, d['reg'])
            if i in run and run[i] != d['rel']:
                return 'variable: %s of %s is at rbp%+d, said to be at rbp%+d' % (name, f, s32(run[i]), s32(d['rel']))
            if not self.fits(pdb.canon(d['type']), c):
                return 'type of a variable: %s of %s is %r, expected %r' % (name, f, pdb.canon(d['type']), c)
        t0 = procs['t0']['rva']
        gl = {}
        for d in pdb.globals:
            gl.setdefault(d['name'], []).append(d)
        for i, (name, c, st) in g.globs.items():
            if i not in run:
                continue
            ds = [d for d in gl.get(name, ()) if d['kind'] in ('S_GDATA32', 'S_LDATA32')]
            if not ds and st is None and mode == 'object':
                continue          # objects do not describe static locals (a noted gap, not a wrong description)
            if not ds:
                return 'global missing: ' + name
            for d in ds:
                if rva(d['addr']) != (t0 + s32(run[i])) & 0xffffffff:
                    return 'address of a global: %s' % name
                if not self.fits(pdb.canon(d['type']), c):
                    return 'type of a global: %s is %r, expected %r' % (name, pdb.canon(d['type']), c)
                if st is not None and st != (d['kind'] == 'S_LDATA32'):
                    return 'linkage of a global: %s' % name
        if mode == 'image':
            for f, (c, st, file, names) in g.funcs.items():
                ds = [d for d in gl.get(f, ()) if d['kind'] in ('S_PROCREF', 'S_LPROCREF')]
                if len(ds) != 1 or ds[0]['ref'][1] != procs[f]['off'] or (ds[0]['kind'] == 'S_LPROCREF') != st:
                    return 'reference to a function: ' + f
            for tag, l in g.enums.items():
                for n, v in l:
                    ds = [d for d in gl.get(n, ()) if d['kind'] == 'S_CONSTANT']
                    if ds and any(d['value'] != v for d in ds):
                        return 'value of an enumerator: %s is %d, expected %d' % (n, ds[0]['value'], v)
        for tag, l in g.enums.items():
            if mode == 'image' and tag not in pdb.enums:
                return 'enumeration missing: ' + tag
            if tag in pdb.enums and pdb.enums[tag] != l:
                return 'enumeration: %s has %r, expected %r' % (tag, pdb.enums[tag], l)
        for name, (kind, size, fields) in g.recs.items():
            if name not in pdb.recs:
                return 'structure missing: ' + name
            for k, z, fs in pdb.recs[name]:
                if (k == 'LF_UNION') != (kind == 'union') or z != size:
                    return 'structure: %s is %s of %d bytes, expected %d' % (name, k, z, size)
                if [f for f in fs if f[0]] != fields:
                    d = [x for x in zip(fs, fields) if x[0] != x[1]][:1]
                    return 'members of a structure: %s %r' % (name, d or (fs, fields))
        for i, t in pdb.types.items():
            if t.get('name') in g.recs and t['kind'] in ('LF_STRUCTURE', 'LF_UNION') and 'fwd' in t:
                if t['name'] in pdb.recs and mode == 'image' and not t['fwd']:
                    return 'the type hash table does not find: ' + t['name']
        return None

    def fits(self, got, want):
        if want[0] == 'fn' and got[0] == 'fn':
            return len(got[2]) == len(want[2]) and self.fits(got[1], want[1]) and all(self.fits(a, b) for a, b in zip(got[2], want[2]))
        if want[0] == got[0] == 'ptr':
            return self.fits(got[1], want[1])
        if want[0] == got[0] == 'arr':
            return got[2] == want[2] and self.fits(got[1], want[1])
        return same(got, want)

    def chain(self, q, ad, rva):
        """the procedure and the blocks around an address"""
        o = [q]
        while 1:
            nx = [b for b in o[-1]['blocks'] if rva(b['addr']) <= ad < rva(b['addr']) + b['size']]
            if len(nx) > 1:
                return None
            if not nx:
                return o
            o.append(nx[0])

    def guid_text(self, b):
        import uuid
        return str(uuid.UUID(bytes_le=bytes(b)))


def s32(v):
    return v - (1 << 32) if v & 0x80000000 else v
