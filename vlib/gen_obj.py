"""C15: the programs of C14 split into several files, compiled to objects (some of them by clang) and linked by lld"""
import re
from .core import *
from .diff import *
from .pe import PE
from .coff import Coff
from .gen_pe import PeGen, M64, HEAD, SCALARS

CLANG_FIX = '''#ifdef __clang__
int _fltused_@;
#endif
'''
TLS_SUPPORT = '''
extern unsigned _tls_index; unsigned _tls_index;
#pragma section(".tls", long, read, write)
#pragma section(".tls$ZZZ", long, read, write)
__declspec(allocate(".tls")) char _tls_start = 0;
__declspec(allocate(".tls$ZZZ")) char _tls_end = 0;
typedef struct { void *a, *b; unsigned *c; void *d; unsigned e, f; } DIR;
const DIR _tls_used = {&_tls_start, &_tls_end, &_tls_index, 0, 0, 0};
int _fltused;
'''


class ObjGen(PeGen):
    aligns = [16, 32, 64, 256, 4096]      # what the linker can honour
    statics = True
    huge_code = True

    def __init__(self, ch):
        super().__init__(ch)
        self.once = []            # selectany definitions, repeated in every file

    def linkage(self, name, kind, value, init=True):
        l = super().linkage(name, kind, value, init)
        return l if self.statics or l != 'static ' else ''

    def data(self):
        ch = self.ch
        if ch.chance(1, 5):
            name = self.name('s')
            t = ch.of(list(SCALARS))
            v = self.val(SCALARS[t])
            w = self.val(SCALARS[t])
            n = ch.of([None, 2, 5])
            k = len(self.decls)
            if n:
                self.once.append('__declspec(selectany) %s %s[%d] = {%dull, %dull};' % (t, name, n, v, w))
            else:
                self.once.append('__declspec(selectany) %s %s = %dull;' % (t, name, v))
            self.tags.add('selectany')
            self.objs.append((name, t, ([v, w] + [0] * (n - 2)) if n else [v], False))
        else:
            super().data()

    def is_array(self, n):
        for x in self.once:
            if ' %s[' % n in x:
                return True
            if ' %s =' % n in x:
                return False
        return super().is_array(n)

    def imp(self):
        ch = self.ch
        return super().imp()

    def imp_data(self):
        ch = self.ch
        d, i = ch.n(2), ch.n(8)
        n = '%s_%d' % (['ald', 'bed'][d], i)
        if n not in self.names:
            self.names.add(n)
            self.decls.append('__declspec(dllimport) extern u64 %s;' % n)
        self.tags.add('imported data')
        return n, [0xA1D0, 0xBED0][d] + i


def extern_of(d):
    """the declaration of a definition for another file (None: not needed)"""
    if d.startswith('#pragma') or re.match(r'(__declspec\(dllimport\) |extern )', d) or re.match(r'u32 (al|be)_\d+\(void\);', d):
        return d
    if d.startswith('static'):
        return None
    d = d.replace('__declspec(dllexport) ', '')
    m = re.match(r'(?s)(.*?u32 \w+\(void\)) \{', d)
    if m:
        return m.group(1) + ';'
    m = re.match(r'(.*?) = ', d)
    return 'extern ' + (m.group(1) if m else d.rstrip(';')) + ';'


class ObjWorker(GenWorker):
    max_shrink_s = 30

    def start(self):
        pass

    def gen(self, ch):
        nf = ch.of([1, 1, 2, 2, 3, 4])
        g = ObjGen(ch)
        g.statics = nf == 1
        g.gen()
        for _ in range(ch.n(3)):
            n, v = g.imp_data()
            g.checks.insert(ch.n(len(g.checks) + 1), (n, v))
        nt = ch.of([1, 2, 4])
        exp = [[] for _ in range(nt)]
        body = [[] for _ in range(nt)]
        for i, (e, v) in enumerate(g.checks):
            j = min(nt - 1, i * nt // max(1, len(g.checks)))
            body[j].append('h_log((u64)(%s));' % e)
            exp[j].append(v & M64)
        tests = []
        for j in range(nt):
            tests.append('__declspec(dllexport) void t%d(void) {\n%s\n}' % (j, '\n'.join(body[j])))
            g.exports['t%d' % j] = ('t', 0)
        owner = [ch.n(nf) for _ in g.decls]
        fl = {}
        compilers = []
        for f in range(nf):
            o = [HEAD]
            used_by = [w for w in range(len(g.decls))]
            o += g.once
            for d, w in zip(g.decls, owner):
                common = extern_of(d)
                if d.startswith('#pragma') or common == d:
                    o.append(d)
                elif w == f:
                    o.append(d)
                elif common:
                    o.append(common)
            for j in range(nt):
                if j % nf == f:
                    o.append(tests[j])
            fl['f%d.c' % f] = '\n'.join(o) + '\n'
            compilers.append('clang' if nf > 1 and ch.chance(1, 3) else 'hlc')
        if 'hlc' not in compilers:
            compilers[0] = 'hlc'
        if 'many code relocations' in g.tags:
            compilers = ['hlc'] * nf       # (takes clang minutes)
        c = GCase('\n'.join(fl['f%d.c' % f] for f in range(nf)), fl)
        opts = ch.of([[], ['/no_debug']])
        c.data = dict(nf=nf, exp=exp, exports=g.exports, imports=g.imports, compilers=compilers, opts=opts, order=ch.shuffle(list(range(nf))) or list(range(nf)),
                      tls=g.tls, at=['pref', '1', '%x' % (ch.r(0x20000, 0x5fff0000) << 16)])
        c.tags = sorted(g.tags | {'%d files' % nf} | ({'objects of both compilers'} if 'clang' in compilers else set()))
        c.nontrivial = len(g.checks) >= 3 and len(g.decls) >= 3
        fl['compilers.txt'] = '\n'.join('f%d.c %s' % (i, k) for i, k in enumerate(compilers)) + '\n' + ' '.join(opts) + '\n'
        return c

    def support(self):
        o = self.px.path('tls.obj')
        if not os.path.exists(o):
            self.px.write('tls.c', TLS_SUPPORT)
            rc, t = self.px.clang_obj('tls.c', 'tls.obj')
            if rc:
                raise CheckError('support object: ' + t[:300])
        return 'tls.obj'

    def judge(self, case):
        d = case.data
        px = self.px
        objs = []
        for f in range(d['nf']):
            px.write('f%d.c' % f, case.fl['f%d.c' % f])
        for f in range(d['nf']):
            if d['compilers'][f] == 'clang':
                rc, t = px.clang_obj('f%d.c' % f, 'f%d.obj' % f, ['-fno-builtin', '-Wno-everything'], '-O1')
                if rc:
                    return 'discard', 'reference rejects', t[:600]
            else:
                r = px.hlc(['/obj', '/quiet', 'f%d.c' % f, '/out:f%d.obj' % f] + d['opts'])
                if r.abnormal:
                    return 'bad', 'hlc fails: ' + r.abnormal.split('\n')[0], r.text[-1500:]
                if r.status:
                    return 'bad', 'rejected: hlc rejects a valid program', r.text[-1500:]
                co = Coff(open(px.path('f%d.obj' % f), 'rb').read())
                if co.problems:
                    return 'bad', 'malformed: ' + co.problems[0], '\n'.join(co.problems)
            objs.append('f%d.obj' % f)
        objs = [objs[i] for i in d['order']]
        if not any(re.search(r'extern u64 (ald|bed)_', t) for t in case.fl.values()):
            r = px.hlc(['/dll', '/no_entry', '/no_stdlib', '/quiet'] + [o.replace('.obj', '.c') for o in objs] + ['/out:w.dll'] + [winpath(BUILD + '/%s.lib' % l) for l in ('harness6', 'alpha', 'beta')] + d['opts'])
            if r.abnormal or r.status:
                return 'bad', 'image: hlc does not compile the files to an image', r.text[-1500:]
            bad = self.run('w.dll', d)
            if bad:
                return bad
        rc, t = px.lld_dll(objs + [self.support(), BUILD + '/alpha.lib', BUILD + '/beta.lib'], 'a.dll')
        if rc or 'warning' in t:
            return 'bad', 'link: the linker rejects the objects', t[:1500]
        pe = PE(open(px.path('a.dll'), 'rb').read())
        if set(pe.exports) != set(d['exports']):
            return 'bad', 'exports: the exported names are not those of the program', 'missing %r\nextra %r' % (sorted(set(d['exports']) - set(pe.exports))[:10], sorted(set(pe.exports) - set(d['exports']))[:10])
        bad = self.run('a.dll', d)
        if bad:
            return bad
        return 'ok', '', ''

    def run(self, dll, d):
        px = self.px
        for at in d['at']:
            logs, err, rr = px.tests(dll, ['max=4000', 'base=' + at])
            if b'cannot map' in rr.out:
                continue
            if err or len(logs) != len(d['exp']):
                return 'bad', 'load: loading the image at %s' % at, '%s %r %s' % (err, logs and len(logs), rr.out[:300])
            for l, e in zip(logs, d['exp']):
                if l.status or l.flags & 255:
                    return 'bad', 'run: signal or machine state', '%r at %s' % (l, at)
                if list(l.vals) != e:
                    k = next(i for i in range(max(len(e), len(l.vals))) if i >= len(e) or i >= len(l.vals) or e[i] != l.vals[i])
                    return 'bad', 'values: %s' % ('the linked image' if dll == 'a.dll' else "hlc's image of the same files") + ' does not hold the values of the program', 't%d value %d: got %s expected %s, loaded at %s' % (l.idx, k, [hex(x) for x in l.vals[k:k + 1]], hex(e[k]) if k < len(e) else '-', at)
        return None
