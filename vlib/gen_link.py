"""C13: programs split over several translation units, with every kind of linkage"""
from .core import *
from .diff import *

HEAD0 = PRELUDE
HEADN = '\n'.join(PRELUDE.split('\n')[:3]) + '\n'
TYPES = ['int', 'unsigned char', 'short', 'long long', 'unsigned int', 'signed char', 'unsigned long long', 'unsigned short']


class Link:
    """Files hold declarations (dec), definitions (dfn) and functions (fun), each a list of texts; ops are statements of the test."""

    def __init__(self, ch):
        self.ch = ch
        self.nf = nf = ch.of([1, 2, 2, 3, 4, 6])
        self.dec = [[] for _ in range(nf)]
        self.dfn = [[] for _ in range(nf)]
        self.dfn2 = [[] for _ in range(nf)]
        self.fun = [[] for _ in range(nf)]
        self.tags = {'%d files' % nf}
        self.ops = []           # statements of the history
        self.n = 0
        self.protos = []        # for the file of the test
        self.together = False
        self.names = []         # names that are free to be static elsewhere
        self.k = ch.n(nf)       # the file of the test
        for _ in range(ch.of([2, 4, 7, 12])):
            getattr(self, ch.of(['data', 'data', 'data', 'array', 'statics', 'func', 'func', 'inline', 'selectany', 'table', 'struct', 'blockextern', 'counter', 'statfun', 'ptr', 'enums', 'common']))()

    def uid(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def t(self):
        return self.ch.of(TYPES)

    def v(self):
        return self.ch.of([0, 1, 2, 5, 100, 127, -1, -3, self.ch.n(1000)])

    def users(self, d):
        """files other than d that use the entity"""
        return [f for f in range(self.nf) if f != d and self.ch.n(3)]

    def access(self, f, x, lv, t, static=False, pre=''):
        """functions of file f that read, write and give the address of lv; the test calls them"""
        ch = self.ch
        a = self.uid('a')
        self.fun[f].append('long long %s_get(void){ %sreturn (long long)%s; }\nvoid %s_set(long long v){ %s%s = (%s)v; }\nvoid *%s_adr(void){ %sreturn (void *)&%s; }' % (a, pre, lv, a, pre, lv, t, a, pre, lv))
        self.protos.append('long long %s_get(void); void %s_set(long long); void *%s_adr(void);' % (a, a, a))
        return a

    def history(self, accs, same=True):
        """accs: accessors of one object (same) or of different objects"""
        ch = self.ch
        for a in accs:
            self.ops.append('h_log((u64)%s_get());' % a)
        for _ in range(ch.r(1, 4)):
            a = ch.of(accs)
            self.ops.append('%s_set(%d);' % (a, ch.n(2000) - 500))
            for b in accs:
                if ch.n(4):
                    self.ops.append('h_log((u64)%s_get());' % b)
        if len(accs) > 1:
            self.ops.append('h_log(%s_adr() == %s_adr());' % (accs[0], accs[-1]))

    def data(self):
        ch = self.ch
        x, t, d = self.uid('x'), self.t(), ch.n(self.nf)
        us = self.users(d)
        form = ch.n(5)
        if form == 0:
            self.dfn[d].append('%s %s = %d;' % (t, x, self.v()))
        elif form == 1:
            self.dec[d].append('extern %s %s;' % (t, x))
            self.dfn[d].append('%s %s = %d;' % (t, x, self.v()))
            self.tags.add('extern before definition')
        elif form == 2:
            self.dfn[d] += ['%s %s;' % (t, x)] * ch.r(1, 3) + ['%s %s = %d;' % (t, x, self.v())]
            self.dfn[d].append('extern %s %s;' % (t, x))
            self.tags.add('tentative then initialised')
        elif form == 3:
            self.dfn[d].append('extern %s %s = %d;' % (t, x, self.v()))
            self.tags.add('extern with initialiser')
        else:
            self.dfn[d] += ['%s %s;' % (t, x)] * ch.r(1, 2)
            self.tags.add('tentative')
        for u in us:
            self.dec[u].append('extern %s %s;' % (t, x))
        accs = [self.access(u, x, x, t) for u in [d] + us]
        # the same name can be static in another file
        for f in range(self.nf):
            if f != d and f not in us and ch.n(2) == 0:
                t2 = self.t()
                self.dfn[f].append('static %s %s = %d;' % (t2, x, self.v()))
                accs2 = self.access(f, x, x, t2)
                self.history([accs2, accs[0]])
                self.tags.add('static hides external name')
        self.history(accs)

    def common(self):
        """tentative definitions in several files merge, when they are compiled together"""
        ch = self.ch
        if ch.n(3):
            return self.data()
        x, t, d = self.uid('x'), self.t(), ch.n(self.nf)
        us = self.users(d)
        init = ch.n(3) == 0
        for f in [d] + us:
            self.dfn[f] += ['%s %s;' % (t, x)] * ch.r(1, 2)
        if init:
            self.dfn[d].append('%s %s = %d;' % (t, x, self.v()))
        if us:
            self.together = True
            self.tags.add('tentative definitions in several files')
        self.history([self.access(u, x, x, t) for u in [d] + us])

    def array(self):
        ch = self.ch
        x, t, d, n = self.uid('x'), self.t(), ch.n(self.nf), ch.r(1, 9)
        us = self.users(d)
        if ch.n(3) == 0:
            self.dec[d].append('extern %s %s[];' % (t, x))
        if ch.n(3) == 0:
            self.dfn[d].append('%s %s[%d];' % (t, x, n))
        else:
            self.dfn[d].append('%s %s[%s] = { %s };' % (t, x, ch.of(['', str(n)]), ', '.join(str(ch.n(100)) for _ in range(n))))
        for u in us:
            self.dec[u].append('extern %s %s[%s];' % (t, x, ch.of(['', str(n)])))
            self.tags.add('array of unknown size')
        i = ch.n(n)
        self.history([self.access(u, x, '%s[%d]' % (x, i), t) for u in [d] + us])
        self.fun[d].append('unsigned long long %s_size(void){ return sizeof(%s); }' % (x, x))
        self.protos.append('unsigned long long %s_size(void);' % x)
        self.ops.append('h_log(%s_size());' % x)

    def statics(self):
        ch = self.ch
        x = self.uid('x')
        accs = []
        for f in range(self.nf):
            t = self.t()
            form = ch.n(4)
            if form == 0:
                continue
            if form == 1:
                self.dec[f].append('static %s %s;' % (t, x))
            self.dfn[f].append('static %s %s%s;' % (t, x, ' = %d' % self.v() if ch.n(3) else ''))
            if form == 2:
                self.dfn[f][-1] += '\nextern %s %s;' % (t, x)
                self.tags.add('extern after static')
            accs.append(self.access(f, x, x, t, True))
        if accs:
            self.history(accs, False)
            self.tags.add('static objects of one name')

    def func(self):
        ch = self.ch
        g, d, n = self.uid('fn'), ch.n(self.nf), ch.n(4)
        t = self.t()
        ps = ', '.join('%s p%d' % (ch.of(TYPES), i) for i in range(n)) or 'void'
        types = ', '.join(p.rsplit(' ', 1)[0] for p in ps.split(', ')) if n else 'void'
        c = ch.n(100)
        b = ' + '.join(['p%d * %d' % (i, ch.r(1, 9)) for i in range(n)] + [str(c)])
        self.fun[d].append('%s%s %s(%s){ return (%s)(%s); }' % (ch.of(['', 'extern ']), t, g, ps, t, b))
        us = self.users(d)
        for u in set(us + [self.k] if self.k != d else us):
            self.dec[u].append('%s%s %s(%s);' % (ch.of(['', 'extern ']), t, g, ch.of([ps, types])))
        args = ', '.join(str(ch.n(50)) for _ in range(n))
        self.ops.append('h_log((u64)%s(%s));' % (g, args))
        for u in us:
            a = self.uid('a')
            self.fun[u].append('long long %s(void){ %s (*p)(%s) = %s%s; return p(%s) + %s(%s); }\nvoid *%s_adr(void){ return (void *)%s; }' % (a, t, types, ch.of(['', '&']), g, args, g, args, a, g))
            self.protos.append('long long %s(void); void *%s_adr(void);' % (a, a))
            self.ops.append('h_log((u64)%s());' % a)
            self.ops.append('h_log(%s_adr() == (void *)%s);' % (a, g))
            self.tags.add('function from another file')
        for f in range(self.nf):
            if f != d and f not in us and f != self.k and ch.n(2) == 0:
                a = self.uid('a')
                self.fun[f].append('static int %s(int x){ return x + %d; }\nint %s(void){ return %s(1); }' % (g, ch.n(50), a, g))
                self.protos.append('int %s(void);' % a)
                self.ops.append('h_log((u64)%s());' % a)
                self.tags.add('static hides external function')

    def statfun(self):
        ch = self.ch
        g = self.uid('fn')
        for f in range(self.nf):
            if ch.n(4) == 0:
                continue
            form = ch.n(3)
            c = ch.n(100)
            a = self.uid('a')
            t = self.t()
            if form == 0:
                self.dec[f].append('static %s %s(int);' % (t, g))
                txt = '%s %s(int x){ return (%s)(x * 3 + %d); }' % (t, g, t, c)
                self.tags.add('static by an earlier declaration')
            else:
                txt = 'static %s %s(int x){ return (%s)(x * 5 + %d); }' % (t, g, t, c)
            self.fun[f] += ch.shuffle([txt]) + ['long long %s(void){ return %s(7); }' % (a, g)]
            self.protos.append('long long %s(void);' % a)
            self.ops.append('h_log((u64)%s());' % a)
        self.tags.add('static functions of one name')

    def inline(self):
        ch = self.ch
        g, c = self.uid('fn'), ch.n(100)
        sp = ch.of(['static inline', 'static __inline', 'extern inline', 'static __forceinline'])
        if sp == 'extern inline' and self.nf > 1:
            # external definitions: more than one is an error when linking objects
            if ch.n(2):
                self.together = True
            else:
                sp = 'static inline'
        txt = '%s int %s(int x){ return x * 7 + %d; }' % (sp, g, c)
        for f in range(self.nf):
            if ch.n(4) == 0 and self.nf > 1:
                continue
            a = self.uid('a')
            self.fun[f] += [txt, 'int %s(int y){ return %s(y) - %s(2); }' % (a, g, g)]
            self.protos.append('int %s(int);' % a)
            self.ops.append('h_log((u64)%s(%d));' % (a, ch.n(100)))
        self.tags.add(sp)

    def selectany(self):
        ch = self.ch
        x, t, v = self.uid('x'), self.t(), self.v()
        accs = []
        for f in range(self.nf):
            if ch.n(3) == 0 and (accs or f + 1 < self.nf):
                continue
            self.dfn[f].append('__declspec(selectany) %s %s = %d;' % (t, x, v))
            accs.append(self.access(f, x, x, t))
        if ch.n(2) == 0:
            # a selectany pointer: data with relocations
            p = self.uid('p')
            for f in range(self.nf):
                if ch.n(2):
                    self.dec[f].append('extern %s %s;' % (t, x))
                    self.dfn2[f].append('__declspec(selectany) %s *%s = &%s;' % (t, p, x))
                    accs.append(self.access(f, x, '*' + p, t))
                    self.tags.add('selectany pointer')
        self.history(accs)
        self.tags.add('selectany')

    def table(self):
        """initialisers that name functions and objects of other files"""
        ch = self.ch
        g, x, d, e = self.uid('fn'), self.uid('x'), ch.n(self.nf), ch.n(self.nf)
        o = self.uid('tab')
        self.fun[d].append('int %s(int x){ return x + %d; }' % (g, ch.n(100)))
        self.dfn[d].append('int %s[4] = { 1, 2, %d, 4 };' % (x, ch.n(50)))
        if e != d:
            self.dec[e] += ['extern int %s[4];' % x]
        self.dec[e].append('int %s(int);' % g)
        s = ch.of(['', 'static '])
        self.dfn2[e].append('%sint (*%s_f[2])(int) = { %s, &%s };\n%sint *%s_p[3] = { %s, &%s[2], %s + 3 };' % (s, o, g, g, s, o, x, x, x))
        self.fun[e].append('int %s_run(int i){ return %s_f[i & 1](i) * 3 + *%s_p[i %% 3]; }' % (o, o, o))
        self.protos.append('int %s_run(int);' % o)
        for i in range(3):
            self.ops.append('h_log((u64)%s_run(%d));' % (o, i))
        self.tags.add('table of addresses')

    def ptr(self):
        """a pointer object defined in one file to an object of another one"""
        ch = self.ch
        x, p, d, e = self.uid('x'), self.uid('p'), ch.n(self.nf), ch.n(self.nf)
        t = self.t()
        self.dfn[d].append('%s %s = %d;' % (t, x, self.v()))
        if e != d:
            self.dec[e].append('extern %s %s;' % (t, x))
        self.dfn2[e].append('%s *%s = &%s;' % (t, p, x))
        if d != e:
            self.dec[d].append('extern %s *%s;' % (t, p))
        accs = [self.access(d, x, x, t), self.access(e, x, '*' + p, t), self.access(d, x, '(*%s)' % p, t)]
        self.history(accs)
        self.tags.add('pointer across files')

    def struct(self):
        ch = self.ch
        s, x, d = self.uid('S'), self.uid('x'), ch.n(self.nf)
        t1, t2 = self.t(), self.t()
        body = 'struct %s { %s a; struct %s *next; %s b[3]; };' % (s, t1, s, t2)
        us = self.users(d)
        td = ch.n(2)
        for f in [d] + us:
            self.dec[f].append(body + (' typedef struct %s %s_t;' % (s, s) if td else ''))
        self.dfn[d].append('struct %s %s = { %d, &%s, { 1, 2, 3 } };' % (s, x, self.v(), x))
        for u in us:
            self.dec[u].append('extern %s %s;' % ('%s_t' % s if td else 'struct ' + s, x))
        self.history([self.access(u, x, ch.of(['%s.b[1]' % x, '%s.next->b[1]' % x, '%s.next->next->b[1]' % x]), t2) for u in [d] + us])
        self.tags.add('struct shared by files')
        # files that only know the tag
        for f in range(self.nf):
            if f not in us and f != d and ch.n(2) == 0:
                a = self.uid('a')
                self.dec[f].append('struct %s; extern struct %s %s;' % (s, s, x))
                self.fun[f].append('void *%s_adr(void){ return &%s; }' % (a, x))
                self.protos.append('void *%s_adr(void);' % a)
                b = self.uid('a')
                self.fun[d].append('void *%s_adr(void){ return &%s; }' % (b, x))
                self.protos.append('void *%s_adr(void);' % b)
                self.ops.append('h_log(%s_adr() == %s_adr());' % (a, b))
                self.tags.add('incomplete in one file')

    def enums(self):
        ch = self.ch
        e = self.uid('E')
        c = ch.n(100)
        body = 'enum %s { %s_a = %d, %s_b, %s_c = %s_a * 2 };' % (e, e, c, e, e, e)
        for f in range(self.nf):
            if ch.n(3):
                a = self.uid('a')
                self.dec[f].append(body)
                self.fun[f].append('int %s(enum %s x){ static enum %s last = %s_b; int r = last * 16 + x; last = x; return r + %s_c; }' % (a, e, e, e, e))
                self.protos.append('int %s(int);' % a if f != self.k else '')
                self.ops += ['h_log((u64)%s(%d));' % (a, ch.n(9)), 'h_log((u64)%s(%d));' % (a, ch.n(9))]
        self.tags.add('enum shared by files')

    def blockextern(self):
        ch = self.ch
        x, t, d = self.uid('x'), self.t(), ch.n(self.nf)
        st = ch.n(3) == 0
        self.dfn[d].append('%s%s %s = %d;' % ('static ' if st else '', t, x, self.v()))
        accs = [self.access(d, x, x, t)]
        a = self.uid('a')
        self.fun[d].append('long long %s(int %s){ long long r = %s; { extern %s %s; %s += 3; r = r * 100 + %s; { int %s = 5; r += %s; } } return r; }' % (a, x, x, t, x, x, x, x, x))
        self.protos.append('long long %s(int);' % a)
        self.ops += ['h_log((u64)%s(%d));' % (a, ch.n(30)), 'h_log((u64)%s(%d));' % (a, ch.n(30))]
        if not st:
            for u in self.users(d):
                accs.append(self.access(u, x, x, t, pre='extern %s %s; ' % (t, x)))
        g = self.uid('fn')
        e = ch.n(self.nf)
        self.fun[e].append('int %s(int x){ return x ^ %d; }' % (g, ch.n(100)))
        b = self.uid('a')
        f = ch.n(self.nf)
        self.fun[f].append('int %s(void){ int %s(int), y = 4; extern int %s(int); return %s(y); }' % (b, g, g, g))
        self.protos.append('int %s(void);' % b)
        self.ops.append('h_log((u64)%s());' % b)
        self.history(accs)
        self.tags.add('block scope extern')

    def counter(self):
        ch = self.ch
        g, d = self.uid('fn'), ch.n(self.nf)
        v = ch.of(['count', 'value', self.uid('c')])
        self.fun[d].append('%sint %s(void){ static int %s = %d; { static int %s; %s++; if (%s > 2) %s = 0; } return ++%s; }' % ('', g, v, ch.n(20), v, v, v, v, v))
        self.protos.append('int %s(void);' % g)
        for _ in range(3):
            self.ops.append('h_log((u64)%s());' % g)
        self.tags.add('static local')

    def make(self):
        ch = self.ch
        files = []
        for f in range(self.nf):
            lines = self.dec[f] + ch.shuffle(self.dfn[f]) + ch.shuffle(self.dfn2[f]) + self.fun[f]
            files.append(lines)
        ops = self.interleave()
        files[self.k].append('\n'.join(p for p in self.protos if p) + '\n__declspec(dllexport) void t0(void){\n' + '\n'.join(ops) + '\n}')
        return files

    def interleave(self):
        return self.ops


class LinkWorker(GenWorker):
    modes = ['together', 'objects', 'mixed', 'pragma', 'partial']

    def gen(self, ch):
        p = Link(ch)
        files = p.make()
        fl = {'f%d.c' % j: (HEAD0 if j == p.k else HEADN) + '\n'.join(lines) + '\n' for j, lines in enumerate(files)}
        plan = []
        for m in ['together'] + [ch.of(['together', 'pragma'] if p.together else self.modes) for _ in range(2)]:
            opts = (['/seed', str(ch.r(1, 10 ** 6))] if ch.n(2) else []) + (['/thread_count', str(ch.r(2, 5))] if ch.n(3) == 0 else [])
            # mixed: which files hlc compiles; partial: groups of files in one object
            plan.append((m, ch.shuffle(list(range(p.nf))), [ch.n(2) for _ in range(p.nf)], opts))
        fl['plan'] = '\n'.join(map(repr, plan)) + '\n'
        return GCase('\n'.join(fl[k] for k in sorted(fl)), fl, p.nf >= 2 and len(p.tags) >= 4, sorted(p.tags | {'mode ' + m for m, *_ in plan}), (p.nf, p.k, plan))

    def clang(self, j):
        return self.px.clang_obj('f%d.c' % j, 'c%d.obj' % j, ['-fcommon'])

    def judge(self, c):
        px = self.px
        nf, k, plan = c.data
        for j in range(nf):
            px.write('f%d.c' % j, c.fl['f%d.c' % j])
            rc, t = self.clang(j)
            if rc:
                return 'discard', 'reference rejects', t[:800]
        rc, t = px.lld_dll(['c%d.obj' % j for j in range(nf)], 'ref.dll')
        if rc:
            return 'discard', 'reference does not link', t[:800]
        ref, err, rr = px.tests('ref.dll', ['max=600'])
        if err or not ref or ref[0].status:
            return 'discard', 'reference run', str(err)
        for m, order, side, opts in plan:
            at = '%s %r %r %s\n' % (m, order, side, ' '.join(opts))
            if m == 'together' or m == 'pragma':
                names = ['f%d.c' % j for j in order]
                if m == 'pragma':
                    px.write('p.c', ''.join('#pragma compilation_unit("%s")\n' % n for n in names[1:]) + '#include "%s"\n' % names[0])
                    names = ['p.c']
                r = px.hlc_dll(names, 'a.dll', opts)
                if r.abnormal or r.status:
                    return 'bad', 'hlc fails: ' + r.abnormal if r.abnormal else 'hlc rejects the program', at + r.text[-1500:]
            else:
                objs = []
                if m == 'partial':
                    groups = [g for g in ([j for j in order if side[j]], [j for j in order if not side[j]]) if g]
                else:
                    groups = [[j] for j in order if m == 'objects' or side[j]]
                for i, g in enumerate(groups):
                    r = px.hlc(['/obj', '/no_debug', '/quiet', '/no_stdlib'] + ['f%d.c' % j for j in g] + ['/out:o%d.obj' % i] + opts)
                    if r.abnormal or r.status:
                        return 'bad', 'hlc fails: ' + r.abnormal if r.abnormal else 'hlc rejects a file of the program', at + repr(g) + r.text[-1500:]
                    objs.append('o%d.obj' % i)
                if m == 'mixed':
                    objs += ['c%d.obj' % j for j in order if not side[j]]
                if not (m == 'mixed' and not side[k]):
                    objs.append(self.support())
                rc, t = px.lld_dll(objs, 'a.dll')
                if rc:
                    return 'bad', 'the objects do not link', at + t[:1500]
            l, err, rr = px.tests('a.dll', ['max=600'])
            if err or not l:
                return 'bad', 'the image does not run', at + '%s status %d' % (err, rr.status)
            if l[0].key() != ref[0].key():
                return 'bad', 'the program behaves differently', at + 'hlc:       %r\nreference: %r' % (l[0], ref[0])
        return 'ok', '', ''

    made_support = None

    def support(self):
        """memcpy and friends for images without a clang object that has them"""
        if not self.made_support:
            px = self.px
            px.write('support.c', HEAD0)
            rc, t = px.clang_obj('support.c', 'support.obj')
            if rc:
                raise CheckError(t)
            self.made_support = True
        return 'support.obj'
