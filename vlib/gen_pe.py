"""C14: programs full of data, pointers, exports, imports and thread-local objects; the image is read by a strict reader, loaded at
several bases, and must hold the values the generator knows"""
from .core import *
from .diff import *
from .pe import PE

HEAD = '''typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long long u64;
__declspec(dllimport) void h_log(u64); __declspec(dllimport) void *h_export(char *);
'''
SCALARS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64}
WORDS = ['alpha', 'Beta', 'x', '_u', 'Zed', 'very_long_name_of_an_object_in_the_program', 'a', 'A', 'mid', '__q', 'name9', 'Name10', 'name1']
M64 = 2 ** 64 - 1


class PeGen:
    def __init__(self, ch):
        self.ch = ch
        self.decls = []
        self.objs = []          # dicts: name, type, n, vals, decl
        self.funcs = []         # (name, value)
        self.exports = {}       # name -> ('f', value) | ('d', first bytes)
        self.imports = {}       # dll -> set
        self.tags = set()
        self.k = 0
        self.names = set()
        self.checks = []        # (expression, value), in an order that matters for thread locals only

    def name(self, p=''):
        self.k += 1
        w = self.ch.of(WORDS)
        if self.ch.chance(1, 40):
            w = w + '_' * self.ch.r(1, 200)
        n = '%s%s%d' % (p, w, self.k) if self.ch.chance(3, 4) else '%s_%d%s' % (w if w[0] != '_' else 'q', self.k, p)
        return n

    def val(self, bits):
        ch = self.ch
        return ch.of([0, 1, 2 ** bits - 1, 2 ** (bits - 1), ch.bits(bits), ch.bits(bits), ch.bits(bits)])

    def linkage(self, name, kind, value, init=True):
        ch = self.ch
        k = ch.weighted([(4, ''), (2, 'static'), (3, 'export')])
        if k == 'export':
            self.exports[name] = (kind, value)
            return '__declspec(dllexport) '
        return k + ' ' if k else ''

    def data(self):
        ch = self.ch
        what = ch.weighted([(4, 'scalar'), (3, 'array'), (2, 'string'), (2, 'bss'), (2, 'tls'), (1, 'big'), (1, 'align'), (1, 'const')])
        self.tags.add(what)
        name = self.name('d')
        t = ch.of(list(SCALARS))
        bits = SCALARS[t]
        if what == 'scalar':
            v = self.val(bits)
            l = self.linkage(name, 'd', v.to_bytes(bits // 8, 'little'))
            self.decls.append('%s%s %s = %dull;' % (l, t, name, v) if bits == 64 else '%s%s %s = %du;' % (l, t, name, v))
            self.objs.append((name, t, [v], False))
        elif what == 'const':
            v = self.val(bits)
            l = self.linkage(name, 'd', v.to_bytes(bits // 8, 'little'))
            self.decls.append('%sconst %s %s[2] = {%dull, %dull};' % (l, t, name, v, v ^ 1))
            self.objs.append((name, t, [v, v ^ 1], True))
        elif what == 'array':
            vs = [self.val(bits) for _ in range(ch.r(1, 6))]
            extra = ch.of([0, 0, 1, 5])
            l = self.linkage(name, 'd', vs[0].to_bytes(bits // 8, 'little'))
            self.decls.append('%s%s %s[%d] = {%s};' % (l, t, name, len(vs) + extra, ', '.join('%dull' % v for v in vs)))
            self.objs.append((name, t, vs + [0] * extra, False))
        elif what == 'string':
            s = ''.join(ch.of('abcXYZ 019_') for _ in range(ch.n(20)))
            l = self.linkage(name, 'd', (s + '\0').encode())
            self.decls.append('%schar %s[] = "%s";' % (l, name, s))
            self.objs.append((name, 'u8', list((s + '\0').encode()), True))
        elif what == 'bss':
            n = ch.of([1, 1, 2, 7, 100])
            l = self.linkage(name, 'd', b'\0')
            self.decls.append('%s%s %s[%d];' % (l, t, name, n))
            self.objs.append((name, t, [0] * n, False))
        elif what == 'big':
            n = ch.of([511, 1000, 4096, 5000, 20000])
            l = self.linkage(name, 'd', b'\0')
            at = [(ch.n(n), self.val(bits)) for _ in range(ch.n(4))]
            vs = [0] * n
            for i, v in at:
                vs[i] = v
            ini = ' = {%s}' % ', '.join('[%d] = %dull' % (i, v) for i, v in dict(at).items()) if at else ''
            if 0 in dict(at) and name in self.exports:
                self.exports[name] = ('d', vs[0].to_bytes(bits // 8, 'little'))
            self.decls.append('%s%s %s[%d]%s;' % (l, t, name, n, ini))
            self.objs.append((name, t, vs, False))
        elif what == 'align':
            a = ch.of(self.aligns)
            v = self.val(bits)
            init = ch.chance(2, 3)
            self.decls.append('__declspec(align(%d)) %s %s%s;' % (a, t, name, ' = %dull' % v if init else ''))
            self.objs.append((name, t, [v if init else 0], False))
            self.checks.append(('(u64)&%s %% %d' % (name, a), 0))
        elif what == 'tls':
            al = ch.of(['', '', '', '__declspec(align(16)) ', '_Alignas(32) ' if False else ''])
            v = self.val(bits)
            n = ch.of([1, 1, 3, 30])
            st = ch.of(['', 'static ']) if self.statics else ''
            kw = ch.of(['__declspec(thread) ', '_Thread_local '])
            if ch.chance(2, 3):
                self.decls.append('%s%s%s%s %s[%d] = {%dull};' % (st, kw, al, t, name, n, v))
                vs = [v] + [0] * (n - 1)
            else:
                self.decls.append('%s%s%s%s %s[%d];' % (st, kw, al, t, name, n))
                vs = [0] * n
            self.tls = True
            self.checks.append(('%s[%d]' % (name, n - 1), vs[-1]))
            self.checks.append(('%s[0]' % name, vs[0]))
            w = self.val(bits)
            self.checks.append(('(%s[%d] = %dull, %s[%d])' % (name, n - 1, w, name, n - 1), w))

    tls = False
    huge_code = False
    statics = True
    aligns = [16, 32, 64, 256, 4096, 8192]

    def function(self):
        ch = self.ch
        n = self.name('f')
        v = self.val(32)
        l = self.linkage(n, 'f', v)
        body = ch.of(['return %du;' % v, '{ u32 a[%d]; a[%d] = %du; return a[%d]; }' % (5, 3, v, 3), 'u8 big[9000]; big[0] = 1; return %du + big[0];' % ((v - 1) & 0xffffffff), 'static u32 s = %du; return s;' % v, 'static u32 z; return %du + z;' % v, 'LOCALS'])
        if body == 'LOCALS':
            body = self.local_statics(v)
        self.decls.append('%su32 %s(void) { %s }' % (l, n, body))
        self.funcs.append((n, v))

    def many_functions(self):
        """more unwind entries (three relocations each) or relocations of the code than the 16-bit counters hold"""
        ch = self.ch
        v, w = self.val(32), self.val(32)
        g, f = self.name('d'), self.name('f')
        self.decls.append('volatile u32 %s = %du;' % (g, v))
        if ch.chance(1, 2):
            n = 22500
            step = ch.of([1, 7, 100])
            self.decls.append('u32 %s(void) { return %s_%d(); } u32 %s_0(void) { return %s; } %s' % (f, f, n - 1, f, g, ' '.join('u32 %s_%d(void) { return %s_%d(); }' % (f, i, f, max(0, i - step)) for i in range(1, n))))
            self.checks.append((f + '()', v))
        else:
            self.decls.append('u32 %s(void) { u32 r = 0; %s return r; }' % (f, 'r += %s;' % g * 66000))
            self.checks.append((f + '()', v * 66000 & 0xffffffff))
        self.tags.add('many code relocations')

    def local_statics(self, v):
        """the body of a function that gives v through static locals"""
        ch = self.ch
        kw = ch.of(['__declspec(thread) ', '_Thread_local ']) if ch.chance(1, 2) else ''
        if kw:
            self.tls = True
        self.tags.add('thread-local static local' if kw else 'static local')
        t = ch.of(['u32', 'u64', 'volatile u32'])
        k = ch.n(5)
        if k == 0:
            return 'static %s%s s = %du; %s r = s; s = r ^ 5; s ^= 5; return (u32)s;' % (kw, t, v, t)
        if k == 1:
            return 'static u32 z[3] = {1, %du, 2}; static %su32 *q = &z[1]; return *q;' % (v, kw)
        if k == 2:
            return '{ static %s%s s[4] = {3, 4, %du}; if (s[0] != 3 || s[3]) return 0; { static %s%s s = %du; return (u32)(s[0 ? 0 : &s] ? s : 1); } }'.replace('s[0 ? 0 : &s] ? s : 1', 's') % (kw, t, v, kw, t, v)
        if k == 3:
            return 'static %schar *s = "abc%d"; static %su8 pad; return s[1] == 98 && !pad ? %du : 0;' % (kw, ch.n(1000), kw, v)
        return 'static %sstruct { u8 c; %s v; void *p; } s = {7, %du, "q"}; return s.c == 7 && *(u8 *)s.p == 113 ? (u32)s.v : 0;' % (kw, t, v)

    def imp(self):
        """-> the name of a declared import of type u32 (void) and its value"""
        ch = self.ch
        d = ch.n(2)
        i = ch.n(32)
        n = '%s_%d' % (['al', 'be'][d], i)
        dll = ['alpha.dll', 'beta.dll'][d]
        if n not in self.names:
            self.names.add(n)
            self.decls.append('%su32 %s(void);' % (ch.of(['__declspec(dllimport) ', '__declspec(dllimport) ', '', 'extern ']), n))
        self.imports.setdefault(dll, set()).add(100 + i if 16 <= i < 24 else n)
        self.tags.add('import by ordinal' if 16 <= i < 24 else 'import')
        return n, [0xA100, 0xBE00][d] + i

    def target(self):
        """a pointer value: (initialiser, expression pattern with @ for the pointer of type void *, value)"""
        ch = self.ch
        k = ch.weighted([(5, 'obj'), (3, 'fun'), (2, 'str'), (1, 'imp'), (1, 'null'), (1, 'int')])
        if k == 'obj' and self.objs:
            n, t, vs, c = ch.of(self.objs)
            i = ch.n(len(vs))
            one = '&%s[%d]' % (n, i) if self.is_array(n) else '&%s' % n
            if not self.is_array(n):
                i = 0
            if ch.chance(1, 3):
                one = '(void *)((u8 *)&%s + %d)' % (n, i * SCALARS[t] // 8)
            return '(void *)%s' % one if one[0] != '(' else one, '*(%s *)@' % t, vs[i]
        if k == 'fun' and self.funcs:
            n, v = ch.of(self.funcs)
            return '(void *)%s' % n, '((u32 (*)(void))@)()', v
        if k == 'imp':
            n, v = self.imp()
            self.tags.add('pointer to an import')
            return '(void *)%s' % n, '((u32 (*)(void))@)()', v
        if k == 'null':
            return '(void *)0', '(u64)@', 0
        if k == 'int':
            v = self.val(64)
            return '(void *)%dull' % v, '(u64)@', v
        s = ''.join(ch.of('abcdefXYZ 0123') for _ in range(ch.r(1, 12)))
        i = ch.n(len(s))
        return '(void *)("%s" + %d)' % (s, i) if i else '(void *)"%s"' % s, '*(u8 *)@', ord(s[i])

    def is_array(self, n):
        d = next(x for x in reversed(self.decls) if ' %s[' % n in x or ' %s ' % n in x or ' %s;' % n in x)
        return ' %s[' % n in d

    def pointers(self):
        ch = self.ch
        name = self.name('p')
        k = ch.weighted([(3, 'one'), (3, 'table'), (3, 'packed'), (1, 'huge')])
        self.tags.add('pointers: ' + k)
        if k == 'one':
            i, e, v = self.target()
            if ch.chance(1, 5):
                l = ch.of(['', 'static ']) if self.statics else ''
                l += ch.of(['__declspec(thread) ', '_Thread_local '])
                self.tls = True
                self.tags.add('thread-local pointer')
            else:
                l = self.linkage(name, 'p', None)
            self.decls.append('%svoid *%s = %s;' % (l, name, i))
            self.checks.append((e.replace('@', name), v))
        elif k in ('table', 'huge'):
            n = ch.r(1, 12)
            ts = [self.target() for _ in range(n)]
            rep = ch.r(20, 120) if k == 'huge' else 1
            if k == 'huge' and ch.chance(1, 30):
                # more relocations than the 16-bit counter of an object's section holds
                ts = ts[:3]
                n = len(ts)
                rep = (65536 + ch.of([-1, 0, 1, 5000])) // n
                self.tags.add('more than 65535 relocations')
            l = self.linkage(name, 'p', None)
            self.decls.append('%svoid *%s[] = {%s};' % (l, name, ', '.join(t[0] for t in ts * rep)))
            for _ in range(min(n, 4)):
                j = ch.n(n)
                self.checks.append((ts[j][1].replace('@', '%s[%d]' % (name, j + n * ch.n(rep))), ts[j][2]))
        else:
            n = ch.r(1, 40)
            pad = ch.of([1, 2, 3, 5, 7, 11])
            if ch.chance(1, 5):
                pad = ch.of([4093, 4089, 2045])
                n = min(n, 6)
            ts = [self.target() for _ in range(min(n, 5))]
            l = self.linkage(name, 'p', None)
            self.decls.append('#pragma pack(push, 1)\nstruct S%s { u8 c[%d]; void *p; };\n#pragma pack(pop)' % (name, pad))
            self.decls.append('%sstruct S%s %s[%d] = {%s};' % (l, name, name, n, ', '.join('{{%d}, %s}' % (j & 255, ts[j % len(ts)][0]) for j in range(n))))
            for _ in range(min(n, 5)):
                j = ch.n(n)
                t = ts[j % len(ts)]
                self.checks.append((t[1].replace('@', '%s[%d].p' % (name, j)), t[2]))
                self.checks.append(('%s[%d].c[0]' % (name, j), j & 255))
                if pad > 1:
                    self.checks.append(('%s[%d].c[%d]' % (name, j, pad - 1), 0))

    def gen(self):
        ch = self.ch
        many = ch.chance(1, 12)
        if self.huge_code and ch.chance(1, 500):
            self.many_functions()
        for _ in range(ch.r(1, 12)):
            ch.weighted([(4, self.data), (2, self.function), (3, self.pointers)])()
        if many:
            self.tags.add('many exports')
            for _ in range(ch.r(50, 400)):
                n = self.name('m')
                v = self.ch.bits(31)
                self.decls.append('__declspec(dllexport) %s' % ('u32 %s = %du;' % (n, v) if ch.chance(1, 2) else 'u32 %s(void) { return %du; }' % (n, v)))
                self.exports[n] = ('f', v) if self.decls[-1].endswith('}') else ('d', v.to_bytes(4, 'little'))
        for n, t, vs, c in self.objs:
            if ch.chance(1, 2):
                i = ch.of([0, len(vs) - 1, ch.n(len(vs))])
                e = '%s[%d]' % (n, i) if self.is_array(n) else n
                self.checks.append((e, vs[i] if self.is_array(n) else vs[0]))
            if not c and ch.chance(1, 6):
                v = self.val(SCALARS[t])
                e = '%s[%d]' % (n, len(vs) - 1) if self.is_array(n) else n
                self.late = getattr(self, 'late', []) + [('(%s = %dull, %s)' % (e, v, e), v)]
        for n, v in self.funcs:
            if ch.chance(1, 2):
                self.checks.append(('%s()' % n, v))
        for _ in range(ch.n(5)):
            n, v = self.imp()
            self.checks.append(('%s()' % n, v))
        ex = list(self.exports.items())
        for _ in range(min(len(ex), ch.n(12))):
            n, (k, v) = ch.of(ex)
            if k == 'f':
                self.checks.append(('((u32 (*)(void))h_export("%s"))()' % n, v))
            elif k == 'd':
                self.checks.append(('*(u8 *)h_export("%s")' % n, v[0]))
            elif k == 'p':
                self.checks.append(('h_export("%s") == (void *)&%s' % (n, n), 1))
        self.checks += getattr(self, 'late', [])
        return self


class PeCase(GCase):
    pass


class PeWorker(GenWorker):
    max_shrink_s = 30

    def gen(self, ch):
        g = PeGen(ch).gen()
        rot = ch.chance(1, 3)           # declarations in another order: everything is declared first then
        c = PeCase('', {})
        tests = []
        nt = ch.of([1, 1, 2, 5])
        exp = [[] for _ in range(nt)]
        body = [[] for _ in range(nt)]
        for i, (e, v) in enumerate(g.checks):
            j = min(nt - 1, i * nt // max(1, len(g.checks)))
            body[j].append('h_log((u64)(%s));' % e)
            exp[j].append(v & M64)
        for j in range(nt):
            tests.append('__declspec(dllexport) void t%d(void) {\n%s\n}' % (j, '\n'.join(body[j])))
            g.exports['t%d' % j] = ('t', 0)
        exe = ch.chance(1, 5)
        head = HEAD
        if exe:
            head = HEAD.replace('__declspec(dllimport) void h_log(u64); ', 'static u32 H = 1; static void h_log(u64 v) { H = H * 31 + (u32)v; H ^= (u32)(v >> 32) * 7; H ^= H >> 13; }\n')
            tests.append('int main(void) { %s return (int)((H ^ H >> 8 ^ H >> 16 ^ H >> 24) & 255); }' % ' '.join('t%d();' % j for j in range(nt)))
        c.text = head + '\n'.join(g.decls + tests) + '\n'
        base = ch.of([None, None, 0x140000000, 0x10000, 0x400000, 0x7ff000000000, 0x1234560000, 0x80000000, 0xfffe0000, 0x100000000, (ch.bits(30) + 1) << 16])
        base2 = ch.of([0x200000000, 0x180010000, 0x3fff0000, 0x7ffe00000000])
        opts = []
        if base is not None:
            opts.append('/image_base:%s' % (('0x%x' % base) if ch.chance(2, 3) else '%d' % base))
        nodyn = ch.chance(1, 8)
        if nodyn:
            opts.append('/no_dynamic_base')
        debug = ch.chance(1, 3)
        if not debug:
            opts.append('/no_debug')
        sub = ch.of([None, None, None, 'windows', 'console', 'efi_application'])
        if sub:
            opts.append('/subsystem:' + sub)
        c.data = dict(exe=exe, exp=exp, exports=g.exports, imports=g.imports, opts=opts, base=base, base2=base2, nodyn=nodyn, debug=debug, sub=sub,
                      tls=g.tls, at=['pref', '1'] + ['%x' % (ch.r(0x20000, 0x5fff0000) << 16) for _ in range(2)])
        c.tags = sorted(g.tags | {'exe' if exe else 'dll', 'debug' if debug else 'no debug', 'image base' if base else 'default base'})
        c.nontrivial = len(g.checks) >= 3 and len(g.decls) >= 3
        c.fl = {'a.c': c.text, 'options.txt': ' '.join(opts) + '\n'}
        return c

    def compile(self, opts, out, exe=False):
        return self.px.hlc((['/entry', 'main'] if exe else ['/dll', '/no_entry']) + ['/no_stdlib', '/quiet'] + opts + ['a.c', '/out:' + out, winpath(BUILD + '/harness6.lib'), winpath(BUILD + '/alpha.lib'), winpath(BUILD + '/beta.lib')])

    def judge(self, case):
        d = case.data
        A, B = ('a.exe', 'b.exe') if d['exe'] else ('a.dll', 'b.dll')
        self.px.write('a.c', case.text)
        r = self.compile(d['opts'], A, d['exe'])
        if r.abnormal:
            return 'bad', 'hlc fails: ' + r.abnormal.split('\n')[0], r.text[-1500:]
        if r.status:
            return 'bad', 'rejected: hlc rejects a valid program', r.text[-1500:]
        data = open(self.px.path(A), 'rb').read()
        pe = PE(data)
        if pe.problems:
            return 'bad', 'malformed: ' + pe.problems[0], '\n'.join(pe.problems)
        if set(pe.exports) != set(d['exports']):
            return 'bad', 'exports: the exported names are not those of the program', 'missing %r\nextra %r' % (sorted(set(d['exports']) - set(pe.exports))[:10], sorted(set(pe.exports) - set(d['exports']))[:10])
        imp = {k: set(v) for k, v in pe.imports.items() if k != 'harness.dll'}
        extra = {k: imp.get(k, set()) - d['imports'].get(k, set()) for k in imp}
        miss = {k: d['imports'][k] - imp.get(k, set()) for k in d['imports']}
        if any(extra.values()) or (any(v for k, v in miss.items()) and self.called(d, case, miss)):
            return 'bad', 'imports: the imports are not those of the program', 'missing %r\nextra %r' % (miss, extra)
        if d['base'] is not None and pe.base != d['base']:
            return 'bad', 'header: image base 0x%x instead of 0x%x' % (pe.base, d['base']), ''
        sub = {'windows': 2, 'console': 3, 'efi_application': 10}.get(d['sub'])
        if sub and pe.subsystem != sub:
            return 'bad', 'header: subsystem %d' % pe.subsystem, ''
        if bool(pe.dllchars & 0x40) == d['nodyn']:
            return 'bad', 'header: dynamic base %d with%s /no_dynamic_base' % (pe.dllchars & 0x40, '' if d['nodyn'] else 'out'), ''
        if bool(pe.chars & 0x2000) == d['exe']:
            return 'bad', 'header: %smarked as a DLL' % ('' if d['exe'] else 'not '), ''
        if bool(pe.entry) != d['exe']:
            return 'bad', 'header: entry point 0x%x' % pe.entry, ''
        if d['tls'] and not pe.tls and ('_Thread' in case.text or '(thread' in case.text) and any('tls' == t for t in case.tags):
            return 'bad', 'tls: no TLS directory', ''
        if d['debug'] != (pe.pdb is not None):
            return 'bad', 'debug: debug directory %s' % (pe.pdb,), ''
        rel = not (pe.chars & 1)
        for at in d['at']:
            if at not in ('pref',) and not rel:
                continue
            if d['exe']:
                h = 1
                for v in [v for e in d['exp'] for v in e]:
                    h = (h * 31 + v) & 0xffffffff
                    h = (h ^ (v >> 32) * 7) & 0xffffffff
                    h ^= h >> 13
                want = (h ^ h >> 8 ^ h >> 16 ^ h >> 24) & 255
                rr = self.px.exe_run(A, 'a.exe', ['base=' + at])
                if rr.status == 240 and (at == 'pref' and 'relocations stripped' in rr.text or 'cannot map' in rr.text):
                    continue
                if rr.status != want:
                    return 'bad', 'values: the image does not hold the values of the program', 'exe: status %s, expected %d, loaded at %s; %s %s' % (rr.status, want, at, rr.abnormal, rr.text[:200])
                continue
            logs, err, rr = self.px.tests(A, ['max=4000', 'base=' + at])
            if at == 'pref' and b'relocations stripped' in rr.out or b'cannot map' in rr.out:
                continue
            if err or len(logs) != len(d['exp']):
                return 'bad', 'load: loading the image at %s' % at, '%s %r %s' % (err, logs and len(logs), rr.out[:300])
            for l, e in zip(logs, d['exp']):
                if l.status or l.flags & 255:
                    return 'bad', 'run: signal or machine state', '%r at %s' % (l, at)
                if list(l.vals) != e:
                    k = next(i for i in range(max(len(e), len(l.vals))) if i >= len(e) or i >= len(l.vals) or e[i] != l.vals[i])
                    return 'bad', 'values: the image does not hold the values of the program', 't%d value %d: got %s expected %s, loaded at %s' % (l.idx, k, [hex(x) for x in l.vals[k:k + 1]], hex(e[k]) if k < len(e) else '-', at)
        # relocation is complete: the image for another base is this one relocated
        if rel and not d['debug']:
            r = self.compile([o for o in d['opts'] if not o.startswith('/image_base')] + ['/image_base:0x%x' % d['base2']], B, d['exe'])
            if r.abnormal or r.status:
                return 'bad', 'hlc fails with another image base', r.text[-500:]
            p2 = PE(open(self.px.path(B), 'rb').read())
            if p2.problems:
                return 'bad', 'malformed: ' + p2.problems[0], '\n'.join(p2.problems)
            x, y = pe.rebased(d['base2']), p2.rebased(d['base2'])
            x, y = x.replace(b'\\%s\0' % A.encode(), b'\\?.out\0'), y.replace(b'\\%s\0' % B.encode(), b'\\?.out\0')
            if x != y:
                k = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
                return 'bad', 'relocation: the image for base 0x%x is not the relocated image for 0x%x' % (d['base2'], pe.base) if False else 'relocation: the image for another base is not this image relocated', 'first difference at rva 0x%x, sizes %x %x' % (k, len(x), len(y))
        return 'ok', '', ''

    def called(self, d, case, miss):
        import re
        return any(re.search(r'h_log.*\b%s\(\)' % (n if isinstance(n, str) else '(al|be)_%d' % (n - 100)), case.text) for v in miss.values() for n in v)
