"""C07: reading, writing and copying aggregates, members and bit-fields."""
from .core import *
from .diff import *
from .ctypes_gen import *
from .gen_int import TY, bval, lit, ULL

PRE = PRELUDE + '''
static void fill_(unsigned char *p, u64 n, u32 s){ for(u64 i = 0; i < n; i++){ s = s * 1103515245 + 12345; p[i] = (unsigned char)(s >> 16); } }
static void diff_(unsigned char *p, unsigned char *old, unsigned char *mask, u64 n, u64 tag){ u64 h = 0; for(u64 i = 0; i < n; i++){ unsigned char b = p[i] & mask[i]; if(b != old[i]){ h = (h * 31 + i) * 257 + b; old[i] = b; } } h_log(h ^ tag); }
static void cpy_(unsigned char *p, unsigned char *q, u64 n){ while(n--) *p++ = *q++; }
static void set_(unsigned char *p, u64 n, int v){ while(n--) *p++ = (unsigned char)v; }
static void mm_(unsigned char *p, unsigned char *mask, u64 n){ u64 h = 7; for(u64 i = 0; i < n; i++) h = h * 257 + (p[i] & mask[i]); h_log(h); }
static int idx_; static int nexti_(int k){ return idx_++ % k; }
static int side_(int v){ h_log(v); return v; }
'''


def kinds(t):
    if t.kind == 'array':
        return kinds(t.elem)
    s = {t.kind}
    for m in t.members or ():
        s |= kinds(m.ty)
    return s


class Agg:
    def __init__(self, ch):
        self.ch = ch
        self.g = TypeGen(ch, 'S', pack=ch.n(3) == 0, packed=ch.n(3) == 0, maxarr=ch.of([3, 3, 5, 20]), ptr=1, enums=1, **ch.of([dict(unions=0), dict(bool=0)]))
        self.tags = set()
        self.types = []
        self.nops = 0

    def leaves(self, t):
        l = leaves(t, '')
        return l

    def once(self):
        """at most one visible side effect in a statement, as the order of evaluation is unspecified"""
        ok, self.eff = self.eff, False
        return ok

    # ---- lvalues of type number k
    def lv(self, k):
        """an lvalue text of aggregate type k, free of undefined behaviour when used once in an expression"""
        ch = self.ch
        sub = [(p, v) for p, v in self.sub if v == k]
        c = ch.n(11)
        if c < 2:
            return 'F.a%d' % k
        if c == 2:
            return 'F.b%d[%s]' % (k, ch.of(['0', '1', '2', 'i1', 'i2', 'i1 + 1']))
        if c == 3:
            return 'G@.a%d' % k
        if c == 4:
            return 'G@.b%d[%s]' % (k, ch.of(['0', '1', '2', 'i1', 'i2 - 1']))
        if c == 5:
            self.tags.add('through pointer')
            return ch.of(['(*pa%d)', 'pa%d[0]', 'pb%d[i1]', '(*(pb%d + i2))', 'pb%d[1]', '(*(*&pa%d))']) % k
        if c == 6:
            return 'l%d' % k
        if c == 7 and self.once():
            self.tags.add('call result lvalue')
            return '(*ptr@_%d(%d))' % (k, ch.n(3))
        if c == 8 and self.once():
            self.tags.add('index with side effect')
            return '%s[nexti_(3)]' % ch.of(['F.b%d', 'G@.b%d']) % k
        if sub:
            self.tags.add('nested aggregate')
            return ch.of(sub)[0]
        return 'par%d' % k

    # ---- rvalues
    def rv(self, k, d=2):
        ch = self.ch
        c = ch.n(14) if d > 0 else ch.n(5)
        if c < 5:
            return self.lv(k)
        if c < 8:
            self.tags.add('by value call')
            return 'f@_%d(%s, %d)' % (k, self.rv(k, d - 1), ch.n(100))
        if c == 8:
            self.tags.add('conditional')
            return '(%s ? %s : %s)' % (ch.of(['i1', 'i0', 'side_(%d)' % ch.n(2) if self.once() else 'i2', 'i2 > 1', '!i1']), self.rv(k, d - 1), self.rv(k, d - 1))
        if c == 9:
            self.tags.add('comma')
            return '(%s, %s)' % ('side_(%d)' % ch.n(50) if self.once() else 'i0', self.rv(k, d - 1))
        if c == 10 and self.seq:
            self.tags.add('assignment as value')
            return '(%s = %s)' % (self.lv(k), self.rv(k, d - 1))
        if c == 11:
            self.tags.add('by value call')
            o, self.seq = self.seq, False
            r = 'sel@_%d(%d, %s, %s)' % (k, ch.n(2), self.rv(k, d - 1), self.rv(k, d - 1))
            self.seq = o
            return r
        if c == 12:
            self.tags.add('function pointer')
            return '%s(%s, %d)' % (ch.of(['fp%d', '(*fp%d)']) % k, self.rv(k, d - 1), ch.n(50))
        if self.g.opts['unions']:
            return self.lv(k)
        self.tags.add('compound literal')
        return '(%s){%s}' % (self.types[k].name, self.inits(self.types[k]))

    def inits(self, t):
        out = []
        for p, ty, b in leaves(t, '', first_union_only=True)[:30]:
            if ty.kind == 'int':
                tt = TY[ty.name]
                out.append(lit(self.bfval(tt, b), tt))
            elif ty.kind == 'float':
                out.append('%d.5f' % self.ch.n(20))
            elif ty.kind == 'enum':
                out.append('%d' % self.ch.n(5))
            else:
                out.append('(void *)%d' % (self.ch.n(1000) * 16))
            if self.ch.n(9) == 0:
                break
        return ', '.join(out)

    def bfval(self, tt, b):
        v = bval(self.ch, tt.size, tt.signed)
        if b:
            v &= (1 << b) - 1
            if tt.signed and v >> (b - 1):
                v -= 1 << b
        return v

    # ---- statements on leaves
    def leaf_stmt(self, k):
        ch = self.ch
        p, ty, bits = ch.of(self.lf[k])
        base = self.lv(k)
        x = base + p
        if ty.kind == 'int':
            t = TY[ty.name]
            if bits:
                self.tags.add('bit-field write')
            if t.name == '_Bool':
                op = ch.of(['=', '=', '|=', '&=', '^='])
                v = ch.of(['0', '1', 'i1', '2', 'v8', '(_Bool)v4', '0.5']) if op == '=' else ch.of(['0', '1', '(_Bool)v4', '!i1'])
                return 'h_log(%s %s %s);' % (x, op, v) if ch.n(2) else '%s %s %s;' % (x, op, v)
            c = ch.n(14)
            wb = bits or t.size * 8
            if c < 4:
                v = ch.of([lit(bval(ch, t.size, t.signed), t), 'v1', 'v2', 'v4', 'v8', 'w1', 'w2', 'w4', '(int)f8', self.leaf_read(), self.leaf_read()])
                s = '%s = %s' % (x, v)
            elif c < 7:
                op = ch.of(['+=', '-=', '*=', '&=', '|=', '^='])
                v = ch.of([lit(bval(ch, 4, 1), TY['int']), 'v1', 'v2', 'v4', 'v8', 'w1', 'w2', 'w4', self.leaf_read(), '2.5f' if not bits and op in ('+=', '-=') and 0 else '3'])
                s = '%s %s %s' % (x, op, v)
            elif c == 7:
                s = '%s %s %s' % (x, ch.of(['<<=', '>>=']), ch.of(['%d' % ch.n(min(wb, 32)), '(v4 & %d)' % (7 if wb < 31 else 31), 'i1', 'i2']))
            elif c == 8:
                s = '%s %s %s' % (x, ch.of(['/=', '%=']), ch.of(['3', '7', '(v1 | 1)' if not t.signed else '5', '11', '1000', '(i2 + 1)']))
            elif c < 11:
                s = ch.of(['%s++', '%s--', '++%s', '--%s']) % x
                self.tags.add('increment')
            elif c == 11:
                s = '%s = (%s%s)' % (x, base if 0 else self.rv(k, 1), p)
            else:
                self.tags.add('chained')
                p2, t2, b2 = ch.of(self.lf[k])
                if t2.kind != 'int' or t2.name == '_Bool':
                    s = '%s = w4' % x
                else:
                    s = '%s = G@.a%d%s = %s' % (x, k, p2, ch.of(['v4', 'v8', 'w1', lit(bval(ch, 4, 1), TY['int'])]))
            m = ch.n(3)
            if m == 0:
                return s + ';'
            if m == 1:
                return 'h_log(%s);' % s
            if bits and not t.signed:     # int or unsigned? compilers differ
                return 'h_log((%s) %s);' % (s, ch.of(['> 5', '+ 1', '* 3', '? 3 : 4', '== 1', '& 5']))
            return 'h_log((%s) %s);' % (s, ch.of(['< 0', '> 5', '+ 1', '* 3', '== -1', '>> 1', '- 7 < 0', '? 3 : 4']))
        if ty.kind == 'float':
            h = 'h_f32' if ty.name == 'float' else 'h_f64'
            s = ch.of(['%s = %d.25', '%s += %d.5', '%s -= %d', '%s *= 1.5f + %d', '%s = %d']) % (x, ch.n(20))
            return '%s(%s);' % (h, s) if ch.n(2) else s + ';'
        if ty.kind == 'enum':
            return '%s = %d;' % (x, ch.n(4))
        if ty.ptype in ('void', 'fn'):
            return '%s = (void *)%d;' % (x, ch.n(1000))
        return ch.of(['%s = (void *)%d;', '%s += %d;', 'h_log((u64)(%s = (void *)%d));', '%s++; h_log(%d);']) % (x, ch.n(1000))

    def leaf_read(self):
        ch = self.ch
        k = ch.n(len(self.types))
        c = [l for l in self.lf[k] if l[1].kind == 'int']
        if not c:
            return 'v4'
        p, ty, bits = ch.of(c)
        if bits:
            self.tags.add('bit-field read')
        b = ch.of([self.lv(k), self.lv(k), self.rv(k, 1)])
        return '%s%s' % (b if not b.startswith('(') or 1 else b, p)

    def read_stmt(self):
        ch = self.ch
        e = self.leaf_read()
        return 'h_log(%s);' % ch.of(['%s', '%s + 1', '%s < 0', '%s - 5 < 0', '-%s', '~%s', '%s >> 1', '%s ? 3 : 5', '!%s', '(u64)%s', '(s8)%s', '%s * 3', '%s == 1', '(%s, 1) + %s' % (e, '%s')]) % e

    def stmt(self, d=2):
        ch = self.ch
        self.nops += 1
        self.eff, self.seq = True, False
        k = ch.n(len(self.types))
        c = ch.n(20)
        self.seq = c < 6 or c >= 17 or c == 13
        if c < 6:
            return '%s = %s;' % (self.lv(k), self.rv(k))
        if c < 11:
            return self.leaf_stmt(k)
        if c < 13:
            return self.read_stmt()
        if c == 13:
            self.tags.add('initialised from value')
            r = self.rv(k)
            self.eff = True
            return '{ %s t = %s; %s = t; }' % (self.types[k].name, r, self.lv(k))
        if c == 13 or c == 14:
            self.seq = False
        if c == 14:
            self.tags.add('array member of rvalue')
            return '{ %s t[2] = {%s, %s}; t[i1] = t[i0]; %s = t[%d]; h_log(sizeof(t)); }' % (self.types[k].name, self.rv(k, 1), self.rv(k, 1), self.lv(k), ch.n(2))
        if c == 15 and d > 0:
            return 'for(int q = 0; q < %d; q++){ %s %s }' % (ch.r(1, 3), self.stmt(d - 1), self.stmt(d - 1))
        if c == 16 and d > 0:
            return 'if(%s){ %s } else { %s }' % (ch.of(['i1', 'i0', 'side_(1)']), self.stmt(d - 1), self.stmt(d - 1))
        if c == 17:
            self.tags.add('discarded value')
            return '%s;' % self.rv(k)
        if c == 18:
            self.tags.add('self assignment')
            l = ch.of(['F.a%d', 'F.b%d[1]', 'l%d']) % k
            return '%s = %s;' % (l, l) if ch.n(2) else '{ %s *p = &%s, *q = &%s; *p = *q; }' % (self.types[k].name, l, l)
        return 'set@_%d(&%s, %s);' % (k, ch.of(['F.a%d', 'F.b%d[2]', 'G@.b%d[0]', 'l%d']) % k, self.rv(k))

    def bools(self, t, x):
        return ''.join('%s%s = %d; ' % (x, p, self.ch.n(2)) for p, ty, b in leaves(t, '') if ty.name == '_Bool' and not b) + \
               ''.join('%s%s = %d.5f; ' % (x, p, self.ch.n(9)) for p, ty, b in leaves(t, '') if ty.kind == 'float')

    def make(self):
        ch, g = self.ch, self.g
        n = ch.of([1, 1, 2, 2, 3])
        for i in range(n):
            for _ in range(6):
                t = g.aggregate(ch.of([0, 1, 1, 2]))
                if 1 <= len(leaves(t, '')) <= 60:
                    break
            self.types.append(t)
        if ch.n(4) == 3:              # odd sizes
            nm = 'O@_%d' % len(self.types)
            sz = ch.of([1, 2, 3, 5, 6, 7, 9, 11, 13, 15, 16, 17, 23, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 300, 1000])
            g.decls.append('struct %s { unsigned char m[%d]; };\n' % (nm, sz))
            a = Ty('array', elem=scalar_of('unsigned char'), n=sz)
            t = Ty('struct', 'struct ' + nm, members=[Member('m', a)])
            t.text = ''
            self.types.append(t)
            self.tags.add('byte array struct')
        n = len(self.types)
        self.names = [kinds(t) for t in self.types]
        self.lf = [leaves(t, '') for t in self.types]
        self.sub = []
        for i, t in enumerate(self.types):
            for p, ty, b in subobjects(t, 'F.a%d' % i)[1:]:
                for k, u in enumerate(self.types):
                    if ty is u:
                        self.sub.append((p, k))
        d = ['%s' % ''.join(g.decls)]
        frame = 'struct F@ { u8 g0[%d]; ' % ch.r(1, 16) + ' '.join('%s a%d; u8 x%d[%d]; %s b%d[3]; u8 y%d[%d];' % (t.name, i, i, ch.r(1, 9), t.name, i, i, ch.r(1, 9)) for i, t in enumerate(self.types)) + ' };\n'
        d.append(frame + 'static struct F@ G@, M@; static u8 old1@[sizeof(struct F@)], old2@[sizeof(struct F@)];\n')
        fns = []
        for i, t in enumerate(self.types):
            T = t.name
            w = [l for l in self.lf[i] if l[1].kind == 'int' and l[1].name != '_Bool']
            ass = ' '.join('a%s = k;' % ch.of(w)[0] for _ in range(ch.n(3))) if w else ''
            fns.append('static %s f@_%d(%s a, int k){ %s return a; }\n' % (T, i, T, ass))
            fns.append('static %s sel@_%d(int c, %s a, %s b){ %s return c ? a : b; }\n' % (T, i, T, T, ch.of(['', 'if(c > 5) return a;', '%s t = a; a = b; b = t;' % T, '%s t = c ? a : b; return t;' % T])))
            fns.append('static void set@_%d(%s *p, %s v){ %s }\n' % (i, T, T, ch.of(['*p = v;', 'p[0] = v;', '%s t; t = v; *p = t;' % T, '%s t[1] = {v}; *p = *t;' % T])))
            fns.append('static %s *ptr@_%d(int i){ h_log(i); return i ? &G@.b%d[i] : &G@.a%d; }\n' % (T, i, i, i))
        pre, post = [], []
        b = ['volatile int vi0 = 0, vi1 = 1, vi2 = 2; int i0 = vi0, i1 = vi1, i2 = vi2;',
             's8 v1 = (s8)%s; s16 v2 = (s16)%s; s32 v4 = (s32)%s; s64 v8 = (s64)%s; u8 w1 = (u8)%s; u16 w2 = (u16)%s; u32 w4 = (u32)%s; f64 f8 = %d.75;' % tuple([lit(bval(ch, 8, 1), TY['long long']) for _ in range(7)] + [ch.n(30)]),
             'struct F@ F; fill_((u8 *)&F, sizeof(F), %d); fill_((u8 *)&G@, sizeof(G@), %d); idx_ = 0;' % (ch.n(1000), ch.n(1000))]
        for i, t in enumerate(self.types):
            T = t.name
            bl = self.bools(t, 'F.a%d' % i)
            b.append('%s l%d, par%d; fill_((u8 *)&l%d, sizeof(%s), %d); fill_((u8 *)&par%d, sizeof(%s), 3); %s *pa%d = %s, *pb%d = %s; %s (*fp%d)(%s, int) = f@_%d;' %
                     (T, i, i, i, T, ch.n(99), i, T, T, i, ch.of(['&F.a%d', '&G@.a%d', '&l%d']) % i, i, ch.of(['F.b%d', 'G@.b%d']) % i, T, i, T, i))
            for x in ['F.a%d', 'G@.a%d', 'l%d', 'par%d'] + ['F.b%d' + '[%d]' % q for q in range(3)] + ['G@.b%d' + '[%d]' % q for q in range(3)]:
                b.append(self.bools(t, x % i))
        # which bits belong to a member
        b.append('set_((u8 *)&M@, sizeof(M@), 0); set_(M@.g0, sizeof(M@.g0), 255);')
        for i, t in enumerate(self.types):
            b.append('static %s mk%d; set_((u8 *)&mk%d, sizeof(mk%d), 0);' % (t.name, i, i, i))
            for p, ty, bits in self.lf[i]:
                x = 'mk%d%s' % (i, p)
                b.append('set_((u8 *)&%s, sizeof(%s), 255);' % (x, x) if bits is None else '%s = %s;' % (x, '1' if ty.name == '_Bool' else '-1'))
            b.append('set_(M@.x%d, sizeof(M@.x%d), 255); set_(M@.y%d, sizeof(M@.y%d), 255);' % (i, i, i, i))
            b.append(' '.join('cpy_((u8 *)&M@.%s, (u8 *)&mk%d, sizeof(mk%d));' % (x, i, i) for x in ('a%d' % i, 'b%d[0]' % i, 'b%d[1]' % i, 'b%d[2]' % i)))
        b.append('set_(old1@, sizeof(F), 1); set_(old2@, sizeof(F), 1); DIFF')
        ops = []
        for _ in range(ch.r(2, 7)):
            ops.append(self.stmt() + ' DIFF')
        b += ops
        b.append(' '.join('mm_((u8 *)&l%d, (u8 *)&mk%d, sizeof(l%d)); mm_((u8 *)&par%d, (u8 *)&mk%d, sizeof(par%d));' % (i, i, i, i, i, i) for i in range(n)))
        body = '\n'.join(b).replace('DIFF', 'diff_((u8 *)&F, old1@, (u8 *)&M@, sizeof(F), 0); diff_((u8 *)&G@, old2@, (u8 *)&M@, sizeof(F), 1);')
        return Case(''.join(d + fns), body, nontrivial=self.nops >= 2, tags=sorted(self.tags | self.g.tags))


class AggWorker(DiffWorker):
    prelude = PRE + '#ifdef __clang__\n#define PK_PUSH _Pragma("pack(push,1)")\n#define PK_POP _Pragma("pack(pop)")\n#define PACKED\n#else\n#define PK_PUSH\n#define PK_POP\n#define PACKED __declspec(packed)\n#endif\n#define ALIGN(n) __declspec(align(n))\n'
    max_log = 300
    clang_opt = '-O0'
    clang_flags = ('-fwrapv', '-fno-strict-aliasing')

    def gen(self, ch):
        return Agg(ch).make()
