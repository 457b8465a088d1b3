"""C11: programs whose file-scope declarations are permuted and split over files; C12: the same programs under many schedules"""
from .core import *
from .diff import *


class T:
    """a type: spec usable before a declarator, post part after it, and the integer leaves of an object of it"""
    __slots__ = ('spec', 'post', 'leaves', 'kind', 'ptrs')

    def __init__(s, spec, leaves, kind, post='', ptrs=()):
        s.spec, s.leaves, s.kind, s.post, s.ptrs = spec, leaves, kind, post, ptrs


SCALARS = [('int', 'scalar'), ('char', 'scalar'), ('unsigned short', 'scalar'), ('long long', 'scalar'), ('unsigned int', 'scalar'), ('short', 'scalar')]


class Prog:
    def __init__(self, ch, statics, size):
        self.ch, self.statics = ch, statics
        self.units = []         # (text, text only for the reference placed before it)
        self.types = [T(s, [''], k) for s, k in SCALARS]
        self.consts = []        # integer constant expressions
        self.ints = []          # readable integer lvalues
        self.gl = []            # (name, type)
        self.funcs = []         # (name, number of int parameters)
        self.tags = []          # struct tags, defined or to be defined
        self.arrays = []
        self.tagset = set()
        self.n = 0
        self.logs = []
        for _ in range(size):
            self.item()
        self.finish()

    def uid(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def unit(self, text, ref=''):
        self.units.append((text, ref))

    def st(self):
        return 'static ' if self.statics and self.ch.n(3) == 0 else ''

    def cexpr(self, d=2):
        ch = self.ch
        k = ch.n(7)
        if k < 3 and self.consts:
            return ch.of(self.consts)
        if k == 3:
            t = ch.of(self.types)
            return 'sizeof(%s%s)' % (t.spec, ' ' + t.post if t.post else '')
        if k == 4 and self.gl:
            return '(int)sizeof(%s)' % ch.of(self.gl)[0]
        if k == 5 and d:
            return '(%s %s %s)' % (self.cexpr(d - 1), ch.of(['+', '^', '*', '|', '-']), self.cexpr(d - 1))
        if k == 6 and self.tags:
            return '(int)sizeof(struct %s *)' % ch.of(self.tags)
        return str(ch.n(20))

    def dim(self):
        return str(self.ch.r(1, 4)) if self.ch.n(2) else '(1 + (%s & 3))' % self.cexpr(1)

    def of_type(self, by_value=True):
        ch = self.ch
        for _ in range(8):
            t = ch.of(self.types) if ch.n(3) else self.types[-1 - ch.n(min(4, len(self.types)))]
            if not by_value or t.kind != 'void':
                return t
        return self.types[0]

    def members(self, depth=0):
        """member declarations and integer leaves"""
        ch = self.ch
        out, leaves, ptrs = [], [], []
        for i in range(ch.r(1, 4)):
            m = self.uid('m')
            k = ch.n(10)
            if k < 3:
                t = self.of_type()
                if t.kind == 'func':
                    t = self.types[0]
                out.append('%s %s%s;' % (t.spec, m, t.post))
                leaves += ['.%s%s' % (m, l) for l in t.leaves]
                if t.kind in ('struct', 'union'):
                    self.tagset.add('member of struct type')
            elif k == 3:
                d = self.dim()
                t = self.of_type()
                if t.post or t.kind in ('func', 'array'):
                    t = self.types[0]
                out.append('%s %s[%s];' % (t.spec, m, d))
                leaves += ['.%s[0]%s' % (m, l) for l in t.leaves]
                self.tagset.add('array sized by a constant')
            elif k < 6:
                tag = self.some_tag()
                out.append('struct %s *%s;' % (tag, m))
                ptrs.append('.' + m)
                self.tagset.add('pointer to struct')
            elif k == 6:
                out.append('unsigned int %s : %d, %s_ : 3;' % (m, ch.r(1, 20), m))
                leaves += ['.' + m, '.%s_' % m]
            elif k == 7 and depth < 2:
                # a tag defined inside another one belongs to file scope
                tag = self.newtag()
                mm, ll, pp = self.members(depth + 1)
                out.append('struct %s { %s } %s;' % (tag, mm, m))
                leaves += ['.%s%s' % (m, l) for l in ll]
                ptrs += ['.%s%s' % (m, p) for p in pp]
                self.types.append(T('struct ' + tag, ll, 'struct', ptrs=pp))
                self.tagset.add('nested tag')
            elif k == 8 and depth < 2:
                e = self.uid('E')
                out.append('enum %s { %s_a = %s & 0xff, %s_b } %s;' % (e, e, self.cexpr(), e, m))
                self.consts += [e + '_a', e + '_b']
                leaves.append('.' + m)
                self.tagset.add('nested enum')
            elif depth < 2:
                mm, ll, pp = self.members(depth + 1)
                out.append('%s { %s };' % (ch.of(['struct', 'union']), mm))
                # only the first leaf of an anonymous aggregate is used, in case it is a union
                leaves += ll[:1]
                self.tagset.add('anonymous member')
            else:
                out.append('int %s;' % m)
                leaves.append('.' + m)
        return ' '.join(out), leaves, ptrs

    def newtag(self):
        """a tag to define now, perhaps one that was already mentioned"""
        w = [t for t in self.tags if t not in self.defined]
        if w and self.ch.n(2):
            t = self.ch.of(w)
        else:
            t = self.uid('S')
            self.tags.append(t)
        self.defined.add(t)
        return t

    defined = None

    def some_tag(self):
        if self.tags and self.ch.n(3):
            return self.ch.of(self.tags)
        t = self.uid('S')
        self.tags.append(t)
        return t

    def init(self, t):
        ch = self.ch
        if t.kind == 'scalar':
            return '%s & 0x7f' % self.cexpr()
        if t.kind in ('struct', 'union', 'array') and t.leaves:
            ls = ch.shuffle(t.leaves)[:ch.r(1, 3)] if t.kind != 'union' else t.leaves[:1]
            ls = [l for l in t.leaves if l in ls]
            return '{ %s }' % ', '.join('%s = %s & 7' % (l, self.cexpr()) for l in ls)
        return None

    def item(self):
        ch = self.ch
        if self.defined is None:
            self.defined = set()
        k = ch.n(20)
        if k < 4:
            tag = self.newtag()
            mm, ll, pp = self.members()
            f = ch.n(5)
            if f == 0:
                td = self.uid('T')
                self.unit('typedef struct %s { %s } %s, *%sp;' % (tag, mm, td, td))
                self.types.append(T(td, ll, 'struct', ptrs=pp))
                self.tagset.add('typedef of struct')
            elif f == 1:
                p = ch.of([1, 2, 4])
                self.unit('#pragma pack(push, %d)\nstruct %s { %s };\n#pragma pack(pop)' % (p, tag, mm))
                self.tagset.add('pack')
            elif f == 2:
                g = self.uid('g')
                self.unit('struct %s { %s } %s;' % (tag, mm, g))
                self.gl.append((g, T('struct ' + tag, ll, 'struct', ptrs=pp)))
                self.ints += [g + l for l in ll]
                self.tagset.add('struct defined with a global')
            else:
                self.unit('struct %s { %s };' % (tag, mm))
            self.types.append(T('struct ' + tag, ll, 'struct', ptrs=pp))
        elif k < 6:
            e = self.uid('E')
            n = ch.r(1, 4)
            self.unit('enum %s { %s };' % (e, ', '.join('%s_%d%s' % (e, i, ch.of([' = %s & 0xff' % self.cexpr(), '', '']) if i else ' = %s & 0xff' % self.cexpr()) for i in range(n))))
            self.consts += ['%s_%d' % (e, i) for i in range(n)]
            self.types.append(T('enum ' + e, [''], 'scalar'))
            self.tagset.add('enum')
        elif k < 9:
            t = self.of_type()
            td = self.uid('T')
            f = ch.n(4)
            if t.kind == 'func':
                t = self.types[0]
            if f == 0 and not t.post and t.kind != 'array':
                self.unit('typedef %s %s[%s];' % (t.spec, td, self.dim()))
                self.types.append(T(td, ['[0]' + l for l in t.leaves], 'array'))
                self.tagset.add('array typedef')
            else:
                txt = 'typedef %s %s%s;' % (t.spec, td, t.post)
                self.unit(txt)
                if f == 1:
                    self.unit(txt)      # an identical redefinition
                    self.tagset.add('repeated typedef')
                self.types.append(T(td, t.leaves, t.kind, ptrs=t.ptrs))
        elif k < 13:
            t = self.of_type()
            if t.kind == 'func':
                t = self.types[0]
            g = self.uid('g')
            s = self.st()
            i = self.init(t) if ch.n(3) else None
            txt = '%s%s %s%s%s;' % (s, t.spec, g, t.post, ' = ' + i if i else '')
            if ch.n(4) == 0 and t.kind == 'scalar':
                g2 = self.uid('g')
                txt = '%s%s %s%s, *%s = &%s, %s_[%s];' % (s, t.spec, g, ' = ' + i if i else '', g2, g, g2, self.dim())
                self.ints += ['*' + g2, g2 + '_[0]']
                self.tagset.add('several declarators')
            if not s and ch.n(5) == 0:
                self.unit('extern %s %s%s;' % (t.spec, g, t.post))
                self.tagset.add('extern declaration')
            self.unit(txt)
            if i is None and ch.n(5) == 0 and '*' not in txt:
                self.unit(txt)
                self.tagset.add('tentative definition twice')
            self.gl.append((g, t))
            self.ints += [g + l for l in t.leaves]
        elif k == 13:
            g = self.uid('g')
            s = self.st()
            n = ch.r(1, 5)
            self.unit('%sint %s[] = { %s };' % (s, g, ', '.join('%s & 0xff' % self.cexpr() for _ in range(n))))
            self.gl.append((g, T('int', ['[%d]' % (n - 1)], 'arrayu')))
            self.ints.append('%s[%d]' % (g, n - 1))
            self.consts.append('(int)(sizeof(%s) / sizeof(%s[0]))' % (g, g))
            self.tagset.add('array of unknown size')
        elif k < 16:
            # pointers to globals
            c = [g for g in self.gl]
            if not c:
                return
            g0, t0 = ch.of(c)
            g = self.uid('g')
            f = ch.n(3)
            if t0.kind == 'arrayu' and f == 2:
                f = 1       # &g0 + 1 needs the size: the known finding 'array-size-late'
            s = self.st()
            if f == 0:
                self.unit('%svoid *%s = &%s;' % (s, g, g0))
                self.logs.append('h_log(%s == (void *)&%s);' % (g, g0))
                self.ints.append('(%s != 0)' % g)
            elif f == 1:
                self.unit('%schar *%s = (char *)&%s + (%s & 3);' % (s, g, g0, self.cexpr()))
                self.logs.append('h_log(%s - (char *)&%s);' % (g, g0))
            else:
                self.unit('%svoid *%s[2] = { &%s, (char *)(&%s + 1) };' % (s, g, g0, g0))
                self.logs.append('h_log((char *)%s[1] - (char *)%s[0]);' % (g, g))
            self.tagset.add('address of a global')
        elif k < 19:
            self.function()
        else:
            self.unit('_Static_assert(%s != 12345678, "");' % self.cexpr())
            self.tagset.add('static assertion')

    def body(self, d=2):
        ch = self.ch
        k = ch.n(9)
        if k < 2 and self.ints:
            return '(int)' + ch.of(self.ints)
        if k == 2:
            return '(int)(%s)' % self.cexpr()
        if k == 3:
            t = ch.of(self.types)
            return '(int)sizeof(%s)' % t.spec
        if k < 6 and d:
            return '(%s %s %s)' % (self.body(d - 1), ch.of(['+', '-', '^', '*', '&']), self.body(d - 1))
        if k < 8 and self.funcs and d > 0:
            f, n = ch.of(self.funcs)
            return '(d <= 0 ? %d : %s(%s))' % (ch.n(9), f, ', '.join(['d - 1'] + [self.body(0) for _ in range(n)]))
        return ch.of(['d', str(ch.n(50))])

    def function(self):
        ch = self.ch
        f = self.uid('fn')
        n = ch.n(3)
        st = [t for t in self.types if t.kind in ('struct',) and t.leaves]
        s = self.st()
        rec = ch.n(3) == 0
        if rec:
            self.funcs.append((f, n))
            self.tagset.add('recursion')
        stm = []
        for _ in range(ch.n(4)):
            k = ch.n(6)
            if k == 0 and st:
                t = ch.of(st)
                v = self.uid('v')
                stm.append('%s %s = { 0 }; %s%s = %s & 7; r += %s%s;' % (t.spec, v, v, ch.of(t.leaves), self.body(), v, ch.of(t.leaves)))
                self.tagset.add('local of a global type')
            elif k == 1 and self.funcs:
                g, m = ch.of(self.funcs)
                v = self.uid('v')
                stm.append('{ int (*%s)(int%s) = %s; if (d > 0) r ^= %s(d - 1%s); }' % (v, ', int' * m, ch.of(['', '&']) + g, v, ', 3' * m))
                self.tagset.add('function pointer')
            elif k == 2 and self.gl and not self.statics:
                g, t = ch.of(self.gl)
                if t.kind == 'scalar':
                    stm.append('{ extern %s %s; r += (int)%s; }' % (t.spec, g, g))
                    self.tagset.add('block extern')
            elif k == 3 and self.gl:
                g, t = ch.of(self.gl)
                if t.kind == 'scalar':
                    # assignments only in functions of their own: the order of evaluation of operands is unspecified
                    h = self.uid('hh')
                    self.unit('%svoid %s(int v){ %s = v & 0x3f; }' % (s, h, g))
                    self.logs.append('%s(%d); h_log(%s);' % (h, ch.n(99), g))
            elif k == 4:
                v = self.uid('v')
                stm.append('{ static int %s[] = { %s & 15, 2 }; r += %s[0] + sizeof(%s); }' % (v, self.cexpr(), v, v))
                self.tagset.add('static local')
            else:
                stm.append('switch (d) { case %s & 3: r++; }' % self.cexpr())
        txt = '%sint %s(int d%s){ int r = 0; %s return (r + (%s)) & 0xfffff; }' % (s, f, ''.join(', int p%d' % i for i in range(n)), ' '.join(stm), self.body(3))
        ref = ''
        self.unit(txt, ref)
        if not s and ch.n(5) == 0:
            self.unit('int %s(int d%s);' % (f, ', int' * n))
            self.tagset.add('prototype')
        if not rec:
            self.funcs.append((f, n))
        if ch.n(6) == 0 and st:
            # by value over a call
            t = ch.of(st)
            f2 = self.uid('fn')
            l = ch.of(t.leaves)
            self.unit('%s %s(%s a, int n){ a%s = (a%s + n) & 7; return a; }' % (t.spec, f2, t.spec, l, l))
            self.logs.append('{ %s a = {0}; a%s = 2; h_log((u64)(%s(%s(a, 2), 1)%s)); }' % (t.spec, l, f2, f2, l))
            self.tagset.add('struct by value')
        if ch.n(8) == 0:
            g = self.uid('g')
            self.unit('int (*%s[])(int%s) = { %s, &%s };' % (g, ', int' * n, f, f))
            self.logs.append('h_log(%s[1](1%s));' % (g, ', 4' * n))
            self.tagset.add('table of functions')

    def finish(self):
        ch = self.ch
        # tags that were only mentioned stay incomplete, or are defined at the end
        for t in self.tags:
            if t not in self.defined and ch.n(2):
                self.unit('struct %s { int x%s; };' % (t, t))
                self.defined.add(t)
        b = []
        for f, n in self.funcs:
            b.append('h_log(%s(2%s));' % (f, ', 5' * n))
        for l in self.ints:
            b.append('h_log((u64)(%s));' % l)
        for t in self.types:
            b.append('h_log(sizeof(%s));' % t.spec)
        for c in self.consts:
            b.append('h_log((u64)(%s));' % c)
        b += self.logs
        self.test = '__declspec(dllexport) void t0(void){\n%s\n}' % '\n'.join(b)


LATE = '''typedef unsigned long long u64;
__declspec(dllimport) void h_log(u64);
char *p = (char *)(&a + 1);
int a[] = { 1, 2, 3 };
__declspec(dllexport) void t0(void){ h_log(p - (char *)&a); }
'''


def late_array_size(px):
    """the known finding: None if it is gone, else what happens"""
    px.write('late.c', LATE)
    r = px.hlc_dll(['late.c'], 'late.dll')
    if r.status:
        return r.text[-500:]
    l, err, rr = px.tests('late.dll', [])
    return None if not err and l and l[0].vals == [12] else 'log %r' % (l and l[0],)


BAD = [
    ['struct Bad1 { struct Bad2 x; };', 'struct Bad2 { struct Bad1 y; };'],
    ['struct Bad3 { struct Bad4 x; int n; };'],
    ['int bad5[sizeof(bad6)];', 'int bad6[sizeof(bad5)];'],
    ['enum { bad7 = bad8 + 1 };', 'enum { bad8 = bad7 + 1 };'],
    ['int bad9(void){ return undeclared_thing; }', 'int (*bad10)(void) = bad9;'],
    ['typedef badtype11 *bad12;', 'bad12 bad13;'],
    ['int bad14;', 'char *bad14;'],
    ['int bad15 = 1;', 'int bad15 = 2;'],
    ['int bad16(int x){ return x; }', 'int bad16(int y){ return y + 1; }'],
    ['struct Bad17 { int a; };', 'struct Bad17 { int a; int b; };'],
    ['enum { bad18 };', 'enum { bad18 = 3 };'],
    ['int bad19(void);', 'char *bad19(int);'],
    ['typedef int bad20;', 'typedef char bad20;'],
    ['typedef int bad21;', 'int bad21(int x){ return x; }'],
    ['int bad22[2];', 'int bad22[3];'],
    ['struct Bad23 bad24;'],
    ['_Static_assert(sizeof(struct Bad25) == 8, "");', 'struct Bad25 { int a; };'],
    ['union Bad26 { int a; };', 'struct Bad26 { int a; };'],
    ['typedef struct { int x; } bad27;', 'typedef struct { int x; char y; } bad27;'],
    ['int bad28 = { "abc" };', 'int *bad29 = &bad28;'],
]


class OrderWorker(GenWorker):
    def gen(self, ch):
        bad = ch.n(6) == 0
        nf = ch.of([1, 1, 2, 3, 5])
        p = Prog(ch, nf == 1 and ch.n(2) == 0, ch.of([4, 8, 15, 25, 40]))
        units = [u for u, _ in p.units]
        ref = PRELUDE + '\n' + '\n'.join(units) + '\n' + p.test + '\n'
        if bad:
            units += ch.of(BAD)
            p.tagset.add('invalid program')
        variants = []
        for v in range(ch.r(2, 5)):
            k = nf if v else 1
            order = ch.shuffle(list(range(len(units) + 1)))
            if ch.n(5) == 0:
                order = list(range(len(units), -1, -1))
            files = [[] for _ in range(k)]
            for i in order:
                files[ch.n(k)].append(i)
            opts = []
            if ch.n(2):
                opts.append('/seed %d' % ch.r(1, 10 ** 6))
            if ch.n(3) == 0:
                opts.append('/thread_count %d' % ch.r(2, 6))
            variants.append((files, opts, ch.n(3)))
        fl = {'reference.c': ref}
        for v, (files, opts, head) in enumerate(variants):
            for j, f in enumerate(files):
                lines = [units[i] if i < len(units) else p.test for i in f]
                # the declarations of the harness: in the first file, in the last, in every one
                pre = PRELUDE if head == 2 or (head == 0 and j == 0) or (head == 1 and j == len(files) - 1) else ''
                if head == 1:
                    lines.append(pre)
                else:
                    lines.insert(0, pre)
                fl['v%d_%d.c' % (v, j)] = '\n'.join(lines) + '\n'
            fl['v%d.options' % v] = ' '.join(opts)
        return GCase(ref + repr(variants), fl, len(units) >= 6 and len(p.tagset) >= 3, sorted(p.tagset | {'%d files' % nf}), (bad, variants))

    def judge(self, c):
        px = self.px
        bad, variants = c.data
        if not bad:
            px.write('r.c', c.fl['reference.c'])
            rc, t = px.clang_dll('r.c')
            if rc:
                return 'discard', 'reference rejects', t[:800] + c.fl['reference.c']
            ref, err, rr = px.tests('ref.dll', ['max=600'])
            if err or ref[0].status:
                return 'discard', 'reference run', str(err)
        for v, (files, opts, head) in enumerate(variants):
            names = []
            for j in range(len(files)):
                names.append('v%d_%d.c' % (v, j))
                px.write(names[-1], c.fl[names[-1]])
            r = px.hlc_dll(names, 'a.dll', ' '.join(opts).split())
            if r.abnormal:
                return 'bad', 'hlc fails: ' + r.abnormal, 'variant %d\n' % v + r.text[-1500:]
            if bad:
                if r.status == 0:
                    return 'bad', 'an invalid program is accepted in one order', 'variant %d %s' % (v, opts)
                if 'Error' not in r.text:
                    return 'bad', 'no error is reported', 'variant %d\n' % v + r.text[-1500:]
                continue
            if r.status:
                return 'bad', 'a valid program is rejected in one order', 'variant %d %s\n' % (v, opts) + r.text[-1500:]
            l, err, rr = px.tests('a.dll', ['max=600'])
            if err or not l or l[0].key() != ref[0].key():
                return 'bad', 'the program behaves differently in one order', 'variant %d %s\n%s\nhlc:       %r\nreference: %r' % (v, opts, err, l and l[0], ref[0])
        return 'ok', '', ''


BAD_BODY = ['int bb%d(void){ return undeclared_%d; }', 'int bb%d(void){ struct Undef%d x; return 0; }', 'int bb%d = undeclared_%d;', 'int bb%d(int a){ int *p = a.x%d; return 0; }',
            'int bb%d(void){ int y%d y; }', '_Static_assert(1 == 2, "bb%d %d");', 'int bb%d(void){ break; return %d; }', 'struct bb%d { int x; float x; } v%d;', 'int bb%d(void){ return "a" * %d; }',
            'int bb%d(void){ goto l%d; }', 'void bb%d(int x){ switch (x) { case %d: case 3: case 3: ; } }']


def pe_interface(data):
    """exports and imports of a PE image, in a comparable form"""
    u = lambda o, n=4: int.from_bytes(data[o:o + n], 'little')
    pe = u(0x3c)
    ns, opt = u(pe + 6, 2), pe + 24
    secs = [(u(s + 12), u(s + 8), u(s + 20), u(s + 16)) for s in (opt + u(pe + 20, 2) + 40 * i for i in range(ns))]

    def off(rva):
        for va, vs, ro, rs in secs:
            if va <= rva < va + max(vs, rs):
                return rva - va + ro
        raise ValueError('rva %x is in no section' % rva)

    def cstr(o):
        return data[o:data.index(0, o)].decode('latin-1')
    exp, imp = [], []
    e = u(opt + 112)
    if e:
        o = off(e)
        n = u(o + 24)
        exp = [cstr(off(u(off(u(o + 32)) + 4 * i))) for i in range(n)]
    i = u(opt + 120)
    if i:
        o = off(i)
        while u(o + 12):
            dll = cstr(off(u(o + 12))).lower()
            t = off(u(o) or u(o + 16))
            while u(t, 8):
                imp.append(dll + ':' + ('#%d' % (u(t, 8) & 0xffff) if u(t, 8) >> 63 else cstr(off(u(t)) + 2)))
                t += 8
            o += 20
    return tuple(exp), tuple(sorted(imp))


def error_places(diag):
    """the places of the errors; of two clashing declarations, or the members of a cycle, any may be the one that is reported: those count by name"""
    out = set()
    for l in diag:
        m = re.search(r'(f\d+\.c\(\d+),\d+\): Error at \'([^\']*)\': (?:\[\d+\] )?(.*)', l)
        if not m or m.group(3).startswith('...'):
            continue
        if m.group(3).startswith('Redefinition of'):
            out.add(m.group(3))
        elif re.match('Part of the cycle|Redecl|Mismatching', m.group(3)):
            out.add(m.group(2))
        else:
            out.add(m.group(1))
    return sorted(out)


def without_times(data):
    """an image without its time stamps and checksum"""
    b = bytearray(data)
    pe = int.from_bytes(b[0x3c:0x40], 'little')
    b[pe + 8:pe + 12] = bytes(4)
    b[pe + 88:pe + 92] = bytes(4)
    return bytes(b)


class SchedWorker(GenWorker):
    """races show up rarely: a failure has to be seen twice in 60 repetitions, and is shrunk only if it is frequent"""
    max_shrink_s = 40

    def minimise(self, case):
        seen, what, detail = 0, '', ''
        for i in range(60):
            st, w, d = self.judge(case)
            if st == 'bad':
                seen, what, detail = seen + 1, w, d
                if seen >= 3 and i < 5:
                    return GenWorker.minimise(self, case) or Failure(what, case.files(), detail[-2500:])
                if seen >= 2:
                    break
        if not seen:
            return None
        return Failure(what, dict(case.files(), **{'choices.json': json.dumps(case.seq)}), detail[-2500:])

    def gen(self, ch):
        nf = ch.of([1, 2, 3, 6])
        p = Prog(ch, nf == 1 and ch.n(2) == 0, ch.of([6, 12, 25, 50, 80]))
        units = [u for u, _ in p.units]
        nbad = ch.r(1, 3) if ch.n(3) == 0 else 0
        bads = ch.shuffle(BAD)
        for i in range(nbad):
            if ch.n(3):
                units.append(ch.of(BAD_BODY) % (i, i + 1))
            else:
                units += bads[i]
            p.tagset.add('invalid program')
        # functions that are exported: the list of exports must not depend on the schedule
        for i in range(ch.n(4)):
            units.append('__declspec(dllexport) int exported_%c%d(int x){ return x + %d; }' % (ch.of('zmaq'), i, i))
        units = ch.shuffle(units)
        files = [[] for _ in range(nf)]
        for u in units:
            files[ch.n(nf)].append(u)
        k = ch.n(nf)
        fl = {}
        for j, f in enumerate(files):
            fl['f%d.c' % j] = '\n'.join(([PRELUDE] if j == k else []) + f + ([p.test] if j == k else [])) + '\n'
        seed = ch.r(1, 10 ** 6)
        groups = []
        for g in range(ch.r(1, 2)):
            base = [] if g == 0 else ['/seed', '%d' % ch.r(1, 10 ** 6)]
            runs = [base, base] + [base + ['/thread_count', '%d' % ch.r(2, 8)] for _ in range(ch.r(2, 4))]
            groups.append(runs)
        fl['options'] = '\n'.join(' '.join(r) for g in groups for r in g) + '\n'
        dbg = ch.n(4) == 0
        return GCase(fl['options'] + ''.join(fl['f%d.c' % j] for j in range(nf)), fl, len(units) >= 8 and len(p.tagset) >= 3, sorted(p.tagset | {'%d files' % nf}), (nf, groups, dbg))

    def judge(self, c):
        px = self.px
        nf, groups, dbg = c.data
        names = ['f%d.c' % j for j in range(nf)]
        for n in names:
            px.write(n, c.fl[n])
        first = None
        for runs in groups:
            gfirst = None
            for i, opts in enumerate(runs):
                r = px.hlc_dll(names, 'a.dll', opts)
                at = 'options %s\n' % ' '.join(opts)
                if r.abnormal:
                    return 'bad', 'hlc fails: ' + r.abnormal, at + r.text[-1500:]
                diag = [l for l in r.text.replace('\r', '').split('\n') if re.search(r'\(\d+,\d+\): (Error|Warning|\[)', l) or 'Error' in l]
                data = log = None
                if r.status == 0:
                    data = open(px.path('a.dll'), 'rb').read()
                    l, err, rr = px.tests('a.dll', ['max=600'])
                    if err or not l:
                        return 'bad', 'the image does not run', at + str(err)
                    log = l[0].key()
                    data = (without_times(data), pe_interface(data))
                cur = (r.status, diag, log, data)
                if gfirst is None:
                    gfirst = cur
                else:
                    if cur[0] != gfirst[0]:
                        return 'bad', 'the outcome depends on the schedule', at + 'status %d, first %d\n%s' % (cur[0], gfirst[0], r.text[-1500:])
                    if cur[1] != gfirst[1] and (i == 1):
                        return 'bad', 'two equal runs report different errors', at + '\n'.join(cur[1]) + '\n---\n' + '\n'.join(gfirst[1])
                    if i == 1 and data and cur[3][0] != gfirst[3][0]:
                        a, b = cur[3][0], gfirst[3][0]
                        d = [k for k in range(min(len(a), len(b))) if a[k] != b[k]]
                        return 'bad', 'two equal runs write different images', at + 'sizes %d %d, differences at %r' % (len(a), len(b), d[:20])
                if first is None:
                    first = cur
                else:
                    if cur[0] != first[0]:
                        return 'bad', 'the outcome depends on the schedule', at + 'status %d, first %d\n%s' % (cur[0], first[0], r.text[-1500:])
                    # which of two clashing declarations comes first, and is named in the message, is up to the schedule
                    if error_places(cur[1]) != error_places(first[1]):
                        return 'bad', 'the errors depend on the schedule', at + '\n'.join(cur[1]) + '\n---\n' + '\n'.join(first[1])
                    if cur[2] != first[2]:
                        return 'bad', 'the behaviour depends on the schedule', at + 'log %r\nfirst %r' % (cur[2], first[2])
                    if data and cur[3][1] != first[3][1]:
                        return 'bad', 'the interface of the image depends on the schedule', at + '%r\n%r' % (cur[3][1], first[3][1])
        return 'ok', '', ''
