"""C08: calls between code compiled by hlc (side 0) and by clang (side 1)."""
from .core import *
from .diff import *
from .ctypes_gen import *
from .gen_int import TY, bval, lit

HEAD = PRELUDE.replace('#ifdef __clang__', '#if defined(__clang__) && defined(SIDE1)') + '''
#include <stdarg.h>
#ifdef __clang__
#define __MM_MALLOC_H
#include <emmintrin.h>
#else
#include <intrin.h>
#endif
#ifdef __clang__
#define ALIGN(n) __declspec(align(n))
void trash_(void);
#else
#define ALIGN(n) __declspec(align(n))
#endif
'''
TRASH = '''
__asm__(".globl trash_\\ntrash_:\\n"
"movabsq $0x5a5a5a5a5a5a5a5a, %rax\\n movq %rax, %rcx\\n movq %rax, %rdx\\n movq %rax, %r8\\n movq %rax, %r9\\n movq %rax, %r10\\n movq %rax, %r11\\n"
"movq %rax, 8(%rsp)\\n movq %rax, 16(%rsp)\\n movq %rax, 24(%rsp)\\n movq %rax, 32(%rsp)\\n"
"movq %rax, %xmm0\\n movddup %xmm0, %xmm0\\n movaps %xmm0, %xmm1\\n movaps %xmm0, %xmm2\\n movaps %xmm0, %xmm3\\n movaps %xmm0, %xmm4\\n movaps %xmm0, %xmm5\\n cmpq %rax, %rcx\\n ret\\n");
'''
SMALL = ['char', 'unsigned char', 'signed char', 'short', 'unsigned short', 'int', 'unsigned int', '_Bool', 'long']


class Fn:
    __slots__ = ('i', 'side', 'params', 'ret', 'var', 'kind', 'calls')


class VTy(Ty):
    __slots__ = ()
    scalar = False


def lvs(t, x):
    if t.kind == 'vec':
        return [('((u64 *)&%s)[0]' % x, scalar_of('unsigned long long'), None), ('((u64 *)&%s)[1]' % x, scalar_of('unsigned long long'), None)]
    return leaves(t, x, first_union_only=True)


class Abi:
    def __init__(self, ch):
        self.ch = ch
        self.g = TypeGen(ch, 'S', align=0, unions=1, bool=1, maxarr=ch.of([3, 3, 6, 12]), floats=1)
        self.tags = set()
        self.fns = []

    def ptype(self):
        ch = self.ch
        k = ch.n(10)
        if k < 6:
            t = self.g.scalar()
            return t
        if k < 7:
            return scalar_of(ch.of(['float', 'double']))
        return ch.of(self.types)

    def vtype(self):
        ch = self.ch
        return ch.of([scalar_of('int'), scalar_of('double'), scalar_of('long long'), scalar_of('unsigned int'), Ty('ptr', ptype='char'), ch.of(self.types), scalar_of('unsigned long long')])

    def value(self, t, env, d):
        """expression of type t; env: names of the parameters at hand"""
        ch = self.ch
        same = [n for n, u in env if u is t or (u.scalar and t.kind == u.kind and u.name == t.name and u.ptype == t.ptype)]
        k = ch.n(8)
        if same and k < 3:
            return ch.of(same)
        if d > 0 and k == 3:
            f = [f for f in self.cands if f.ret is t or (f.ret is not None and f.ret.scalar and t.scalar and t.kind == f.ret.kind and f.ret.name == t.name and f.ret.ptype == t.ptype)]
            if f and not self.called:
                self.called = True
                self.tags.add('call as argument')
                return self.call(ch.of(f), env, d - 1)
        if t.kind == 'int':
            if t.name == '_Bool':
                return ch.of(['0', '1', '(_Bool)1'])
            return '(%s)%s' % (t.name, lit(bval(ch, TY[t.name].size, TY[t.name].signed), TY[t.name])) if ch.n(3) else lit(bval(ch, TY[t.name].size, TY[t.name].signed), TY[t.name])
        if t.kind == 'float':
            return '%s%d.%d%s' % (ch.of(['', '-']), ch.n(1000), ch.n(100), 'f' if t.name == 'float' else '')
        if t.kind == 'enum':
            return '(%s)%d' % (t.name, ch.n(5))
        if t.kind == 'ptr':
            return ch.of(['(void *)%d' % (ch.n(100000) * 8), '0', '(void *)0x7ffffffffff0'])
        k = self.types.index(t)
        if ch.n(3) == 0:
            return 'gs@_%d[%d]' % (k, ch.n(2))
        return 'mk@_%d(%d)' % (k, ch.n(1000))

    def call(self, f, env, d, via=None):
        ch = self.ch
        a = [self.value(t, env, d) for t in f.params]
        if f.var is not None:
            a += ['%s' % self.vvalue(t, env, d) for t in f.var]
        nm = 'f@_%d' % f.i
        k = ch.n(6)
        if via:
            nm = via
        elif k == 0:
            nm = '(*fp@_%d)' % f.i
            self.tags.add('through function pointer')
        elif k == 1:
            nm = 'fp@_%d' % f.i
            self.tags.add('through function pointer')
        return '%s(%s)' % (nm, ', '.join(a))

    def vvalue(self, t, env, d):
        ch = self.ch
        if t.kind == 'int' and t.name == 'int' and ch.n(3) == 0:
            return ch.of(['(char)-5', '(short)300', '(unsigned char)200', "'x'", '(_Bool)1', '(signed char)-1'])
        if t.kind == 'float' and ch.n(3) == 0:
            return '%d.5f' % ch.n(100)
        v = self.value(t, env, d)
        if t.kind == 'ptr':
            return '(char *)%s' % v
        if t.kind == 'int' and not (v.startswith('f@') or v.startswith('fp@') or v.startswith('(*')):
            return '(%s)%s' % (t.name, v)
        return v

    def log(self, x, t):
        ls = lvs(t, x)
        if len(ls) > 14:
            ls = ls[:7] + ls[-7:]
        return ' '.join(log_leaf(p, ty) if ty.kind != 'ptr' else 'h_log((u64)%s);' % p for p, ty, b in ls)

    def logres(self, e, t):
        if t is None:
            return e + '; h_log(77);'
        if t.kind == 'float':
            return '%s(%s);' % ('h_f32' if t.name == 'float' else 'h_f64', e)
        if t.scalar:
            return 'h_log((u64)%s);' % e
        return '{ %s r = %s; %s }' % (t.name, e, self.log('r', t))

    def body(self, f):
        ch = self.ch
        env = [('p%d' % i, t) for i, t in enumerate(f.params)]
        o = ['h_log(%d);' % (1000 + f.i)]
        if ch.n(3):
            o += [self.log('p%d' % i, t) for i, t in enumerate(f.params)]
        if f.var is not None:
            o.append('va_list ap; va_start(ap, p%d);' % (len(f.params) - 1))
            half = ch.n(len(f.var) + 1) if ch.n(4) == 0 else None
            for j, t in enumerate(f.var):
                if half == j:
                    o.append('{ va_list aq; va_copy(aq, ap); %s va_end(aq); }' % ' '.join('{ %s v = va_arg(aq, %s); %s }' % (u.decl('').strip(), u.decl('').strip(), self.log('v', u)) for u in f.var[j:]))
                    self.tags.add('va_copy')
                o.append('{ %s = va_arg(ap, %s); %s }' % (t.decl('v'), t.decl('').strip(), self.log('v', t)))
            o.append('va_end(ap);')
        if ch.n(6) == 0:
            o.append('h_unwind();')
        self.cands = [g for g in self.fns if g.i < f.i and g.side is not None]
        for _ in range(ch.n(3)):
            if not self.cands:
                break
            self.called = False
            g = ch.of(self.cands)
            o.append(self.logres(self.call(g, env, 1), g.ret))
            if g.side != f.side:
                self.tags.add('hlc calls clang' if f.side == 0 else 'clang calls hlc')
        # the parameters still have their values; change them
        for i, t in enumerate(f.params):
            if ch.n(3) == 0:
                o.append(self.log('p%d' % i, t))
            if ch.n(4) == 0:
                ls = lvs(t, 'p%d' % i)
                ls = [l for l in ls if l[1].kind == 'int']
                if ls:
                    o.append('%s = %d;' % (ch.of(ls)[0], ch.n(2)))
        if f.side == 1:
            o.append('TRASH')
        if f.ret is not None:
            self.called = True
            o.append('return %s;' % self.value(f.ret, env, 0))
        return ' '.join(o)

    def make(self):
        ch, g = self.ch, self.g
        self.types = []
        for _ in range(ch.r(1, 3)):
            if ch.n(3) == 2:
                nm = 'O@_%d' % len(self.types)
                sz = ch.of([1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 24, 32, 33, 100])
                el = scalar_of(ch.of(['unsigned char', 'char']))
                t = Ty('struct', 'struct ' + nm, members=[Member('m', Ty('array', elem=el, n=sz))])
                if sz % 4 == 0 and ch.n(2):
                    t = Ty('struct', 'struct ' + nm, members=[Member('m', Ty('array', elem=scalar_of(ch.of(['float', 'int'])), n=sz // 4))])
                g.decls.append('struct %s { %s; };\n' % (nm, t.members[0].ty.decl('m')))
                t.text = ''
            else:
                for _ in range(6):
                    t = g.aggregate(ch.of([0, 0, 1, 1]))
                    if len(leaves(t, '')) <= 40:
                        break
            self.types.append(t)
        if ch.n(4) == 3:
            t = VTy('vec', ch.of(['__m128i', '__m128', '__m128d']))
            t.text = ''
            self.types.append(t)
            self.tags.add('vector type')
        n = ch.r(1, 6)
        for i in range(n):
            f = Fn()
            f.i, f.side, f.kind = i, ch.n(2), 'plain'
            f.params = [self.ptype() for _ in range(ch.of([0, 1, 2, 3, 4, 5, 6, 8, 11]))]
            f.ret = None if ch.n(6) == 5 else self.ptype()
            f.var = None
            if f.params and ch.n(4) == 3:
                f.params = f.params[:3]
                if not f.params[-1].scalar or f.params[-1].name in ('float', '_Bool', 'char', 'signed char', 'unsigned char', 'short', 'unsigned short', '__int16', 'unsigned __int8') or f.params[-1].kind == 'enum':
                    f.params[-1] = scalar_of(ch.of(['int', 'double', 'long long']))
                f.var = [self.vtype() for _ in range(ch.n(7))]
                self.tags.add('variadic')
            self.fns.append(f)
        protos = []
        defs = ['', '']
        for k, t in enumerate(self.types):
            protos.append('extern %s gs@_%d[2];\n' % (t.name, k))
            sets = ''
            for p, ty, b in lvs(t, 'r'):
                if ty.kind == 'ptr':
                    sets += '%s = (void *)(s += 12345);' % p
                elif ty.name == '_Bool':
                    sets += '%s = (s += 77) & 1;' % p
                elif ty.kind == 'enum':
                    sets += '%s = (s += 3) & 3;' % p
                else:
                    sets += '%s = (%s)(s = s * 77 + 13) ;' % (p, 'int' if ty.kind == 'float' else ty.name)
            protos.append('static %s mk@_%d(u64 s){ %s r; set_((char *)&r, sizeof(r)); %s return r; }\n' % (t.name, k, t.name, sets))
            defs[ch.n(2)] += '%s gs@_%d[2];\n' % (t.name, k)
        ar = set()
        for f in self.fns:
            ps = ', '.join(t.decl('p%d' % i) for i, t in enumerate(f.params)) or 'void'
            if f.var is not None:
                ps += ', ...'
            head = (f.ret.decl('f@_%d(%s)' % (f.i, ps)) if f.ret is not None else 'void f@_%d(%s)' % (f.i, ps))
            protos.append(head + ';\n')
            protos.append('extern ' + (f.ret.decl('(*fp@_%d)(%s)' % (f.i, ps)) if f.ret is not None else 'void (*fp@_%d)(%s)' % (f.i, ps)) + ';\n')
            defs[ch.n(2)] += (f.ret.decl('(*fp@_%d)(%s)' % (f.i, ps)) if f.ret is not None else 'void (*fp@_%d)(%s)' % (f.i, ps)) + ' = f@_%d;\n' % f.i
            defs[f.side] += head + '{ ' + self.body(f) + ' }\n'
            for t in f.params:
                if not t.scalar:
                    self.tags.add('aggregate parameter')
            if f.ret is not None and not f.ret.scalar:
                self.tags.add('aggregate result')
            if len(f.params) > 4:
                self.tags.add('stack parameters')
        # garbage in the upper bits of arguments and results
        body = []
        extra = ['', '']
        for q in range(ch.n(3)):
            ts = [ch.of(SMALL) for _ in range(ch.r(1, 6))]
            r = ch.of(SMALL)
            G = lambda t: '((u64)(%s)%s | 0x%xull << %d)' % ('u8' if TY[t].size == 1 else 'u16' if TY[t].size == 2 else 'u32', lit(bval(ch, TY[t].size, 0) if t != '_Bool' else ch.n(2), TY['unsigned long long']) if t != '_Bool' else ch.of(['1', '0']), ch.bits(32) | 1, TY[t].size * 8)
            nm = 'q@_%d' % q
            if ch.n(2):        # clang passes garbage to hlc
                self.tags.add('garbage above arguments')
                extra[0] += '%s %s(%s){ %s return %s; }\n' % (r, nm, ', '.join('%s p%d' % (t, i) for i, t in enumerate(ts)), ' '.join('h_log(p%d); h_log(p%d %s);' % (i, i, ch.of(['+ 1', '> 3', '<< 1', '? 4 : 5', '== 1', '* 2', '/ 3'])) for i in range(len(ts))), 'p0')
                extra[1] += '%s %s(%s);\nvoid g%s(void){ h_log((u64)((%s (*)(%s))%s)(%s)); }\n' % (r, nm, ', '.join(ts), nm, r, ', '.join(['u64'] * len(ts)), nm, ', '.join(G(t) for t in ts))
                extra[0] += 'void g%s(void);\n' % nm
                body.append('g%s();' % nm)
            else:
                self.tags.add('garbage above results')
                extra[1] += 'u64 %s(int p){ h_log(p); return %s; }\n' % (nm, G(r))
                extra[0] += '%s %s(int p);\n' % (r, nm)
                e = '%s(%d)' % (nm, ch.n(100))
                body.append('h_log(%s);' % ch.of(['%s', '%s + 1', '(s64)%s', '%s ? 3 : 4', '%s == 1', '%s < 0', '(u64)%s', '!%s', '-%s', '%s / 3', '(%s, 1) + %s' % (e, '%s')]) % e)
        self.cands = self.fns
        for _ in range(ch.r(1, 4)):
            f = ch.of(self.fns)
            self.called = False
            body.append(self.logres(self.call(f, [], 1), f.ret))
            self.tags.add('hlc calls clang' if f.side == 1 else 'hlc calls hlc')
        init = []
        for k, t in enumerate(self.types):
            init.append('gs@_%d[0] = mk@_%d(%d); gs@_%d[1] = mk@_%d(%d);' % (k, k, ch.n(99), k, k, ch.n(99)))
        c = Case(''.join(g.decls) + ''.join(protos), ' '.join(init + body), nontrivial=any(f.params for f in self.fns), tags=sorted(self.tags))
        c.sides = [defs[0].replace('TRASH', '') + extra[0], defs[1].replace('TRASH', 'trash_();') + extra[1]]
        return c


class ACase(Case):
    __slots__ = ('sides',)


Case_ = Case
Case = ACase


class AbiWorker(DiffWorker):
    max_log = 400
    prelude = HEAD + 'static void set_(char *p, u64 n){ while(n--) *p++ = 0; }\n'

    def gen(self, ch):
        return Abi(ch).make()

    def side(self, cases, k):
        o = [self.prelude if k == 0 else '#define SIDE1\n' + self.prelude + TRASH]
        for i, c in enumerate(cases):
            o.append((c.decls + c.sides[k]).replace('@', str(i)))
            if k == 0:
                o.append('__declspec(dllexport) void t%d(void){\n%s\n}\n' % (i, c.body.replace('@', str(i))))
        return '\n'.join(o)

    def files(self, cases):
        return {'hlc_side.c': self.side(cases, 0), 'clang_side.c': self.side(cases, 1)}

    def build_ref(self, cases):
        px = self.px
        px.write('b.c', self.side(cases, 1))
        return px.clang_obj('b.c', 'b.obj', (), '-O2')

    def run_hlc(self, cases):
        px = self.px
        px.write('a.c', self.side(cases, 0))
        r = px.hlc(['/obj', '/no_debug', '/quiet', 'a.c', '/out:a.obj', '/I', winpath(VERIF + '/inc')])
        if r.abnormal:
            return None, ('abnormal', r.abnormal + '\n' + r.text[-1500:])
        if r.status:
            return None, ('reject', r.text)
        rc, t = self.build_ref(cases)
        if rc:
            raise CheckError('clang: ' + t[:500])
        rc, t = px.lld_dll(['a.obj', 'b.obj'], 'a.dll')
        if rc:
            return None, ('load', 'lld cannot link the object: ' + t[:600])
        logs, err, rr = px.tests('a.dll', ['max=%d' % self.max_log])
        if err or len(logs) != len(cases):
            return logs, ('load', 'loading or running the image: %s (status %d, %d of %d tests)' % (err, rr.status, len(logs or ()), len(cases)))
        return logs, None

    def run_ref(self, cases):
        px = self.px
        px.write('r.c', self.side(cases, 0))
        rc, t = px.clang_obj('r.c', 'r.obj', (), '-O1')
        if rc:
            return None, t
        rc, t = self.build_ref(cases)
        if rc:
            return None, t
        rc, t = px.lld_dll(['r.obj', 'b.obj'], 'ref.dll')
        if rc:
            return None, t
        logs, err, rr = px.tests('ref.dll', ['max=%d' % self.max_log])
        if err or len(logs) != len(cases):
            return None, 'reference run: %s' % err
        return logs, None
