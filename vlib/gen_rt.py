"""C25: the functions hlc supplies itself: memory, string and wide string functions, setjmp and longjmp."""
from .core import *
from .diff import *

PAGE = '''__declspec(dllimport) void *VirtualAlloc(void *, u64, u32, u32);
static u8 *page@;
static void fresh@(void){ u8 *p = VirtualAlloc(0, 0x30000, 0x2000, 1); page@ = VirtualAlloc(p + 0x10000, 0x1000, 0x1000, 4); }
'''
DECLS = '''void *memset(void *, int, u64); void *memcpy(void *, const void *, u64); void *memmove(void *, const void *, u64); int memcmp(const void *, const void *, u64); void *memchr(const void *, int, u64);
char *strstr(const char *, const char *); char *strchr(const char *, int); char *strrchr(const char *, int);
u16 *wcsstr(const u16 *, const u16 *); u16 *wcschr(const u16 *, u16); u16 *wcsrchr(const u16 *, u16);
'''
# the reference model: written over indices and from the text of the standard
MODEL = '''
#define ML extern
int memcmp(const void *a, const void *b, u64 n){ const u8 *x = a, *y = b; for (u64 i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
void *memchr(const void *a, int c, u64 n){ const u8 *x = a; for (u64 i = 0; i < n; i++) if (x[i] == (u8)c) return (void *)(x + i); return 0; }
static u64 len8(const char *s){ u64 n = 0; while (s[n]) n++; return n; }
static u64 len16(const u16 *s){ u64 n = 0; while (s[n]) n++; return n; }
char *strchr(const char *s, int c){ u64 n = len8(s); for (u64 i = 0; i <= n; i++) if (s[i] == (char)c) return (char *)s + i; return 0; }
char *strrchr(const char *s, int c){ u64 n = len8(s) + 1; while (n--) if (s[n] == (char)c) return (char *)s + n; return 0; }
char *strstr(const char *s, const char *t){ u64 n = len8(s), m = len8(t); for (u64 i = 0; i + m <= n; i++){ u64 j = 0; while (j < m && s[i + j] == t[j]) j++; if (j == m) return (char *)s + i; } return 0; }
u16 *wcschr(const u16 *s, u16 c){ u64 n = len16(s); for (u64 i = 0; i <= n; i++) if (s[i] == c) return (u16 *)s + i; return 0; }
u16 *wcsrchr(const u16 *s, u16 c){ u64 n = len16(s) + 1; while (n--) if (s[n] == c) return (u16 *)s + n; return 0; }
u16 *wcsstr(const u16 *s, const u16 *t){ u64 n = len16(s), m = len16(t); for (u64 i = 0; i + m <= n; i++){ u64 j = 0; while (j < m && s[i + j] == t[j]) j++; if (j == m) return (u16 *)s + i; } return 0; }
typedef struct { _Alignas(16) u64 a[40]; } jmp_buf[1];
__attribute__((returns_twice)) int my_setjmp(void *);
__attribute__((noreturn)) void my_longjmp(void *, int);
#define setjmp my_setjmp
#define longjmp my_longjmp
__asm__(".globl my_setjmp\\nmy_setjmp:\\n movq %rbx, (%rcx)\\n movq %rbp, 8(%rcx)\\n movq %rsi, 16(%rcx)\\n movq %rdi, 24(%rcx)\\n movq %r12, 32(%rcx)\\n movq %r13, 40(%rcx)\\n movq %r14, 48(%rcx)\\n movq %r15, 56(%rcx)\\n movq (%rsp), %rax\\n movq %rax, 64(%rcx)\\n leaq 8(%rsp), %rax\\n movq %rax, 72(%rcx)\\n"
  "movups %xmm6, 80(%rcx)\\n movups %xmm7, 96(%rcx)\\n movups %xmm8, 112(%rcx)\\n movups %xmm9, 128(%rcx)\\n movups %xmm10, 144(%rcx)\\n movups %xmm11, 160(%rcx)\\n movups %xmm12, 176(%rcx)\\n movups %xmm13, 192(%rcx)\\n movups %xmm14, 208(%rcx)\\n movups %xmm15, 224(%rcx)\\n xorl %eax, %eax\\n ret\\n"
  ".globl my_longjmp\\nmy_longjmp:\\n movl %edx, %eax\\n testl %eax, %eax\\n jne 1f\\n incl %eax\\n1: movq (%rcx), %rbx\\n movq 8(%rcx), %rbp\\n movq 16(%rcx), %rsi\\n movq 24(%rcx), %rdi\\n movq 32(%rcx), %r12\\n movq 40(%rcx), %r13\\n movq 48(%rcx), %r14\\n movq 56(%rcx), %r15\\n movq 72(%rcx), %rsp\\n"
  "movups 80(%rcx), %xmm6\\n movups 96(%rcx), %xmm7\\n movups 112(%rcx), %xmm8\\n movups 128(%rcx), %xmm9\\n movups 144(%rcx), %xmm10\\n movups 160(%rcx), %xmm11\\n movups 176(%rcx), %xmm12\\n movups 192(%rcx), %xmm13\\n movups 208(%rcx), %xmm14\\n movups 224(%rcx), %xmm15\\n jmpq *64(%rcx)\\n");
'''

SIZES = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 23, 24, 31, 32, 33, 47, 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513, 1000, 1024]


def size(ch, most=4096):
    k = ch.n(10)
    v = ch.n(6) if k < 2 else ch.of(SIZES) if k < 7 else ch.n(80) if k < 9 else ch.n(4097)
    return min(v, most)


def place(ch, n):
    """an offset for n bytes of the page: at one of its edges, or anywhere"""
    k = ch.n(5)
    room = 4096 - n
    if k == 0 or room == 0:
        return room
    if k == 1:
        return 0
    if k == 2:
        return min(room, 64 + ch.n(33))
    if k == 3:
        return max(0, room - ch.n(33))
    return ch.n(room + 1)


class RtWorker(DiffWorker):
    prelude = PRELUDE + DECLS + MODEL
    prelude_hlc = PRELUDE + '#include <setjmp.h>\n#include <vcruntime_string.h>\n' + DECLS

    def gen(self, ch):
        k = ch.n(8)
        if k < 3:
            return self.memory(ch)
        if k < 6:
            return self.strings(ch)
        return self.jumps(ch) if k == 6 or ch.chance(7, 10) else self.registers(ch)

    def value(self, ch, v, o):
        """an argument: a constant, or a value hlc cannot know"""
        if ch.chance(4, 10):
            return str(v)
        n = 'v%d' % len(o['vars'])
        o['vars'].append('volatile s64 %s = %d;' % (n, v))
        return '(u64)' + n if ch.chance(3, 10) else n

    def memory(self, ch):
        o = {'vars': [], 'b': []}
        tags = set()
        b = o['b']
        b.append('fresh@(); u8 *p = page@; u8 *r;')
        alpha = ch.of([2, 3, 256])
        b.append('{ u32 x = %du; for (int i = 0; i < 4096; i++){ x = x * 1103515245u + 12345u; p[i] = (u8)((x >> 16) %% %d * %d); } }' % (ch.n(1 << 30), alpha, ch.of([1, 85, 127, 129])))
        for _ in range(2 + ch.n(9)):
            f = ch.of(['memset', 'memcpy', 'memmove', 'memcmp', 'memchr', 'memmove', 'copied'])
            tags.add(f)
            V = lambda v: self.value(ch, v, o)
            n = size(ch)
            tags.add('empty' if n == 0 else 'n%d' % n.bit_length())
            d = place(ch, n)
            if f == 'memset':
                c = ch.of([0, 1, -1, 255, 256, 0x80, 0x7f, 0x1234, -128, 0x7fffffff, ch.n(256)])
                b.append('r = memset(p + %s, %s, %s); h_log(r - p);' % (V(d), V(c), V(n)))
            elif f == 'memcpy':
                n = min(n, 2048)
                d = place(ch, n)
                # before or behind, touching or at a distance
                side = [s for s in (0, 1) if (d >= n, d + 2 * n <= 4096)[s]]
                if not side:
                    continue
                if ch.of(side):
                    s = d + n + ch.of([0, 0, ch.n(4096 - d - 2 * n + 1)])
                else:
                    s = d - n - ch.of([0, 0, ch.n(d - n + 1)])
                b.append('r = memcpy(p + %s, p + %s, %s); h_log(r - p);' % (V(d), V(s), V(n)))
            elif f == 'memmove':
                k = ch.of([0, 1, 1, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, n // 2, max(n - 1, 0), n, n + 1, ch.n(4096)])
                s = d + (k if ch.chance(5, 10) else -k)
                s = max(0, min(4096 - n, s))
                tags.add('overlap' if abs(s - d) < n and s != d else 'apart')
                b.append('r = memmove(p + %s, p + %s, %s); h_log(r - p);' % (V(d), V(s), V(n)))
            elif f in ('memcmp', 'copied'):
                s = place(ch, n)
                if f == 'copied':       # equal except for at most one byte
                    b.append('for (u64 i = 0; i < %d; i++) p[%d + i] = p[%d + i];' % (n, s, d) if abs(s - d) >= n else ';')
                    if n and abs(s - d) >= n and ch.chance(7, 10):
                        b.append('p[%d] ^= %d;' % (s + ch.of([0, n - 1, ch.n(n)]), ch.of([1, 0x80, 0xff, 0x7f])))
                b.append('{ int c = memcmp(p + %s, p + %s, %s); h_log(c < 0 ? 1 : c > 0 ? 2 : 0); }' % (V(d), V(s), V(n)))
            else:
                c = ch.of([0, 1, 85, 170, 255, -1, 256, 0x155, -128, ch.n(256)])
                if n and ch.chance(4, 10):
                    b.append('p[%d] = (u8)%d;' % (d + ch.of([0, n - 1, ch.n(n)]), c))
                if ch.chance(3, 10) and n:    # more is allowed when it is found before
                    b.append('p[%d] = (u8)%d;' % (d + n - 1, c))
                    n += ch.n(50)
                b.append('r = memchr(p + %s, %s, %s); h_log(r ? r - p : -1);' % (V(d), V(c), V(n)))
        b.append('h_mem(p, 4096);')
        return Case(PAGE, '\n'.join(o['vars'] + b), True, tags)

    def strings(self, ch):
        wide = ch.chance(4, 10)
        o = {'vars': [], 'b': []}
        tags = set()
        b = o['b']
        T = 'u16' if wide else 'char'
        W = 2 if wide else 1
        b.append('fresh@(); u8 *p = page@; %s *s, *t, *r;' % T)
        b.append('for (int i = 0; i < 4096; i++) p[i] = %s;' % ch.of(['0', '0xff', "'a'", '(u8)(i * 7)']))
        if wide:
            alpha = ch.of([[97, 98], [97, 98, 99], [97, 97 + 256, 0x6100], [0x8000, 0xffff, 0xff], list(range(1, 300))])
        else:
            alpha = ch.of([[97, 98], [97, 98, 99], [97, 225, 98], [128, 255, 127], list(range(1, 256))])
        for _ in range(1 + ch.n(6)):
            n = ch.of([0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 64])
            k = ch.n(3)
            if k == 0:
                h = [ch.of(alpha) for _ in range(n)]
            elif k == 1:        # periodic, which defeats naive restarts
                per = [ch.of(alpha) for _ in range(1 + ch.n(4))]
                h = [per[i % len(per)] for i in range(n)]
                if h and ch.chance(5, 10):
                    h[ch.n(n)] = ch.of(alpha)
            else:
                h = [alpha[0]] * n
                if h and ch.chance(7, 10):
                    h[-1] = alpha[1]
            bytes_ = (n + 1) * W
            d = place(ch, bytes_)
            if wide and d % 2:
                d = max(0, d - 1)
            unaligned = False
            lst = lambda x: ', '.join(str(v) for v in x + [0])
            b.append('{ static %s a[] = { %s }; s = (%s *)(p + %d); for (int i = 0; i < %d; i++) s[i] = a[i]; }' % (T, ', '.join('(%s)%d' % (T, v) for v in h + [0]), T, d, n + 1))
            pre = 'wcs' if wide else 'str'
            for _ in range(1 + ch.n(3)):
                f = ch.of(['chr', 'rchr', 'str'])
                tags.add(pre + f)
                if f == 'str':
                    k = ch.n(6)
                    if k == 0:
                        m = []
                    elif k == 1 and h:
                        i = ch.n(n)
                        m = h[i:i + 1 + ch.n(n - i)]
                    elif k == 2 and h:
                        m = h[-(1 + ch.n(n)):]
                    elif k == 3 and h:      # a mismatch at its end only
                        i = ch.n(n)
                        m = h[i:i + 1 + ch.n(n - i)]
                        m = m[:-1] + [ch.of(alpha)]
                    elif k == 4:
                        m = h + [ch.of(alpha)]
                    else:
                        m = [ch.of(alpha) for _ in range(1 + ch.n(4))]
                    nb = (len(m) + 1) * W
                    e = place(ch, nb)
                    if wide and e % 2:
                        e = max(0, e - 1)
                    if not (e + nb <= d or d + bytes_ <= e):
                        e = d - nb if d >= nb else d + bytes_
                    b.append('{ static %s a[] = { %s }; t = (%s *)(p + %d); for (int i = 0; i < %d; i++) t[i] = a[i]; }' % (T, ', '.join('(%s)%d' % (T, v) for v in m + [0]), T, e, len(m) + 1))
                    b.append('r = %sstr(s, t); h_log(r ? r - s : -1);' % pre)
                    tags.add('needle%d' % min(len(m), 3))
                else:
                    c = ch.of([0, ch.of(alpha), ch.of(h) if h else 0, h[-1] if h else 0, h[0] if h else 0])
                    if not wide:
                        c = ch.of([c, c, c - 256, c + 256, c | 0x5500])
                        if c & 255 == 0:
                            tags.add('nul')
                    elif c == 0:
                        tags.add('nul')
                    b.append('r = %s%s(s, %s); h_log(r ? r - s : -1);' % (pre, f, self.value(ch, c, o)))
        b.append('h_mem(p, 4096);')
        return Case(PAGE, '\n'.join(o['vars'] + b), True, tags)

    def jumps(self, ch):
        """frames that call setjmp, and functions that jump back to any frame which is still active"""
        depth = 1 + ch.n(4)
        tags = {'frames%d' % depth}
        d = ['static jmp_buf jb@[%d]; static int fuel@; static int trace@;' % depth]
        d.append('static void go@(int to, int value, int level){ int keep[%d]; keep[0] = level; if (level > 0){ go@(to, value, level - 1); h_log(keep[0]); return; } if (fuel@-- > 0) longjmp(jb@[to], value); h_log(99); }' % (1 + ch.n(40)))
        for f in range(depth - 1, -1, -1):
            o = ['static int frame@_%d(int a, double x, s64 *out){' % f]
            o.append('int same = a * %d; double dsame = x + %d.5; volatile int count = 0; volatile s64 acc = a; struct { int a; s64 b; char c[9]; } s = { a, -%d, "state" };' % (ch.n(9) + 2, ch.n(5), ch.n(100)))

            def act():
                o = []
                for _ in range(1 + ch.n(3)):
                    k = ch.n(6)
                    if k == 0:
                        o.append('h_log(%d);' % ch.n(100))
                    elif k == 1 and f + 1 < depth:
                        o.append('h_log(frame@_%d(a + %d, x * 2, out));' % (f + 1, ch.n(5)))
                    elif k == 2:
                        o.append('acc += %d; h_log(acc);' % ch.n(50))
                    elif k == 3:
                        o.append('h_log(same); h_f64(dsame); h_mem(&s.c, 9);')
                    else:
                        to = ch.n(f + 1)
                        v = ch.of([1, 2, 0, -1, 3, 0x7fffffff, -2147483647 - 1, ch.n(5)])
                        if ch.chance(4, 10):
                            tags.add('deep')
                            o.append('go@(%d, %d, %d);' % (to, v, ch.n(6)))
                        else:
                            tags.add('own' if to == f else 'outer')
                            o.append('if (fuel@-- > 0) longjmp(jb@[%d], %s);' % (to, ch.of(['%d' % v, 'a - a + (%d)' % v, 'count'])))
                return ' '.join(o)
            sj = 'setjmp(jb@[%d])' % f
            k = ch.n(5)
            tags.add(('switch', 'if', 'ifnot', 'compare', 'loop')[k])
            if k == 0:
                arms = ['case %d: h_log(%d); %s break;' % (v, v, act()) for v in ch.shuffle([0, 1, 2, 3])[:2 + ch.n(3)]]
                o.append('switch (%s){ %s default: h_log(77); %s }' % (sj, ' '.join(arms), act()))
            elif k == 1:
                o.append('if (%s){ %s } else { %s }' % (sj, act(), act()))
            elif k == 2:
                o.append('if (!%s){ %s } h_log(5);' % (sj, act()))
            elif k == 3:
                o.append('if (%s %s %d){ %s } else { %s }' % (sj, ch.of(['==', '!=', '<', '>=']), ch.of([0, 1, 2]), act(), act()))
            else:
                o.append('while (%s < %d){ h_log(count); if (++count > 4) break; %s }' % (sj, ch.of([1, 2, 3]), act()))
            o.append('count = count + 1; h_log(count); h_log(a); h_log(same); h_f64(dsame); h_f64(x); h_log(s.a); h_log(s.b); h_log(out[0]); out[0] += acc;')
            if ch.chance(4, 10):
                o.append(act())
            o.append('return same + %d; }' % f)
            d.append('\n'.join(o))
        body = 's64 out[1] = { 5 }; fuel@ = %d; h_log(frame@_0(%d, %d.25, out)); h_log(out[0]); h_log(fuel@);' % (1 + ch.n(12), ch.n(100), ch.n(100))
        if ch.chance(3, 10):
            body += ' fuel@ = 3; h_log(frame@_0(7, 2.0, out)); h_log(out[0]);'
            tags.add('again')
        return Case('\n'.join(d), body, True, tags)

    def registers(self, ch):
        """non-volatile registers have the values of the call of setjmp after longjmp"""
        regs = ch.shuffle(['rbx', 'rsi', 'rdi', 'r12', 'r13', 'r14', 'r15'])[:1 + ch.n(7)]
        xmm = ch.shuffle(list(range(6, 16)))[:ch.n(6)]
        vals = {r: ch.bits(63) for r in regs}
        xv = {x: (ch.bits(64), ch.bits(64)) for x in xmm}
        d = ['static jmp_buf jb@; static u64 v@[40];',
             'static void wreck@(int level){ u64 z = 0x5555; u64 w[2] = { 0x5555, 0x6666 }; u64 *pw = w; if (level){ wreck@(level - 1); h_log(level); return; } __asm__ { %s } longjmp(jb@, %d); }' % (
                 '\n'.join(['mov %s, z' % r for r in regs] + ['mov rcx, pw'] + ['movups xmm%d, [rcx]' % x for x in xmm]) + '\n', 1 + ch.n(9))]
        o = ['u64 %s; u64 xs[20], *pxs = xs;' % ', '.join('s_' + r for r in regs), '__asm__ {\n%s\n}' % '\n'.join(['mov s_%s, %s' % (r, r) for r in regs] + ['mov rcx, pxs'] + ['movups [rcx + %d], xmm%d' % (16 * i, x) for i, x in enumerate(xmm)]),
             'u64 %s;' % ', '.join('i_%s = %dull' % (r, vals[r]) for r in regs)]
        for x in xmm:
            o.append('u64 x_%d[2] = { %dull, %dull }, y_%d[2], *px_%d = x_%d, *py_%d = y_%d;' % (x, xv[x][0], xv[x][1], x, x, x, x, x))
        o.append('u64 %s;' % ', '.join('o_%s = 0' % r for r in regs))
        o.append('int r; __asm__ {\n%s\n}' % '\n'.join(['mov %s, i_%s' % (r, r) for r in regs] + [l for x in xmm for l in ('mov rcx, px_%d' % x, 'movups xmm%d, [rcx]' % x)]))
        o.append('r = setjmp(jb@);')
        o.append('__asm__ {\n%s\n}' % '\n'.join(['mov o_%s, %s' % (r, r) for r in regs] + [l for x in xmm for l in ('mov rcx, py_%d' % x, 'movups [rcx], xmm%d' % x)]))
        for r in regs:
            o.append('h_log(o_%s);' % r)
        for x in xmm:
            o.append('h_mem(y_%d, 16);' % x)
        lv = ch.n(4)
        o.append('if (!r) wreck@(%d);' % lv)
        o.append('__asm__ {\n%s\n}' % '\n'.join(['mov %s, s_%s' % (r, r) for r in regs] + ['mov rcx, pxs'] + ['movups xmm%d, [rcx + %d]' % (x, 16 * i) for i, x in enumerate(xmm)]))
        e = []
        for r in regs:
            e.append('h_log(%dull);' % vals[r])
        for x in xmm:
            e.append('{ u64 y[2] = { %dull, %dull }; h_mem(y, 16); }' % xv[x])
        return Case('', ' '.join(e + ['h_log(%d);' % i for i in range(1, lv + 1)][:0] + e), True, ['registers'] + regs + ['xmm'] * bool(xmm), '\n'.join(d), '\n'.join(o))
