"""C21: intrinsics and atomics."""
import re, struct
from .core import *
from .diff import *
from .intrin_table import TABLE

HEADERS = {'malloc.h': '', 'stddef.h': 'typedef unsigned short wchar_t; typedef unsigned long long size_t;\n'}
VEC = {'__m128': ('vf', 16), '__m128i': ('vi', 16), '__m128d': ('vd', 16), '__m256': ('wf', 32), '__m256i': ('wi', 32)}
INTS = {'char': 1, '__int8': 1, 'unsigned __int8': 1, 'unsigned char': 1, 'short': 2, '__int16': 2, 'unsigned __int16': 2, 'unsigned short': 2, 'int': 4, 'long': 4, '__int32': 4, 'unsigned int': 4,
        'unsigned long': 4, 'unsigned __int32': 4, '__int64': 8, 'unsigned __int64': 8, 'long long': 8}
FLOATS = {'float': 4, 'double': 8}

# what the Microsoft documentation says of the functions that are not vector operations
MODEL = '''
#define __MM_MALLOC_H
#include <immintrin.h>
#include <stdatomic.h>
#define _mm_cvtsd_si64x _mm_cvtsd_si64
#define _mm_cvttsd_si64x _mm_cvttsd_si64
#define _mm_cvtsi128_si64x _mm_cvtsi128_si64
#define _mm_cvtsi64x_sd _mm_cvtsi64_sd
#define _mm_cvtsi64x_si128 _mm_cvtsi64_si128
#define _mm_andn_si128 _mm_andnot_si128
typedef __int128 s128; typedef unsigned __int128 u128;
#define BT(NAME, T, UT, W, OP) u8 r##NAME(T *p, T i){ UT *q = (UT *)p + (i >> (W == 32 ? 5 : 6)); UT m = (UT)1 << (i & (W - 1)); u8 r = (*q & m) != 0; OP; return r; }
BT(_bittest, int, u32, 32, ) BT(_bittest64, s64, u64, 64, ) BT(_bittestandcomplement, int, u32, 32, *q ^= m) BT(_bittestandcomplement64, s64, u64, 64, *q ^= m)
BT(_bittestandreset, int, u32, 32, *q &= ~m) BT(_bittestandreset64, s64, u64, 64, *q &= ~m) BT(_bittestandset, int, u32, 32, *q |= m) BT(_bittestandset64, s64, u64, 64, *q |= m)
static int scanf_(u64 v){ for (int i = 0; i < 64; i++) if (v >> i & 1) return i; return 0; }
static int scanr_(u64 v){ for (int i = 63; i >= 0; i--) if (v >> i & 1) return i; return 0; }
u8 r_BitScanForward(u32 *o, u32 v){ *o = scanf_(v); return v != 0; } u8 r_BitScanForward64(u32 *o, u64 v){ *o = scanf_(v); return v != 0; }
u8 r_BitScanReverse(u32 *o, u32 v){ *o = scanr_(v); return v != 0; } u8 r_BitScanReverse64(u32 *o, u64 v){ *o = scanr_(v); return v != 0; }
#define LOCKED(T, S) T r_InterlockedIncrement##S(T *p){ return ++*p; } T r_InterlockedDecrement##S(T *p){ return --*p; } T r_InterlockedExchange##S(T *p, T v){ T r = *p; *p = v; return r; } T r_InterlockedExchangeAdd##S(T *p, T v){ T r = *p; *p = r + v; return r; } \\
  T r_InterlockedCompareExchange##S(T *p, T v, T c){ T r = *p; if (r == c) *p = v; return r; } T r_InterlockedOr##S(T volatile *p, T v){ T r = *p; *p = r | v; return r; } T r_InterlockedXor##S(T volatile *p, T v){ T r = *p; *p = r ^ v; return r; } T r_InterlockedAnd##S(T volatile *p, T v){ T r = *p; *p = r & v; return r; }
LOCKED(s8, 8) LOCKED(s16, 16) LOCKED(int, ) LOCKED(s64, 64)
void *r_InterlockedExchangePointer(void **p, void *v){ void *r = *p; *p = v; return r; } void *r_InterlockedCompareExchangePointer(void **p, void *v, void *c){ void *r = *p; if (r == c) *p = v; return r; }
u8 r_InterlockedCompareExchange128(s64 *p, s64 h, s64 l, s64 *c){ if (p[0] == c[0] && p[1] == c[1]){ p[0] = l; p[1] = h; return 1; } c[0] = p[0]; c[1] = p[1]; return 0; }
#define STR(T, N) void r__stos##N(T *d, T v, u64 n){ for (u64 i = 0; i < n; i++) d[i] = v; } void r__movs##N(T *d, T *s, u64 n){ for (u64 i = 0; i < n; i++) d[i] = s[i]; }
STR(u8, b) STR(u16, w) STR(u32, d) STR(u64, q)
static int pop_(u64 v){ int n = 0; for (; v; v &= v - 1) n++; return n; }
u16 r__popcnt16(u16 v){ return pop_(v); } u32 r__popcnt(u32 v){ return pop_(v); } u64 r__popcnt64(u64 v){ return pop_(v); }
static int lz_(u64 v, int w){ int n = 0; while (w-- && !(v >> w & 1)) n++; return n; }
u16 r__lzcnt16(u16 v){ return lz_(v, 16); } u32 r__lzcnt(u32 v){ return lz_(v, 32); } u64 r__lzcnt64(u64 v){ return lz_(v, 64); } u32 r_lzcnt_u32(u32 v){ return lz_(v, 32); } u64 r_lzcnt_u64(u64 v){ return lz_(v, 64); }
u64 r_umul128(u64 a, u64 b, u64 *h){ u128 r = (u128)a * b; *h = r >> 64; return r; } s64 r_mul128(s64 a, s64 b, s64 *h){ s128 r = (s128)a * b; *h = r >> 64; return r; }
u64 r_udiv128(u64 h, u64 l, u64 d, u64 *m){ u64 q = 0; for (int i = 63; i >= 0; i--){ u64 c = h >> 63; h = h << 1 | (l >> i & 1); q <<= 1; if (c || h >= d){ h -= d; q |= 1; } } *m = h; return q; }
static u8 gs_[0x1000];
#define GS(T, N) void r__incgs##N(u32 o){ ++*(T *)(gs_ + o); } void r__addgs##N(u32 o, T v){ *(T *)(gs_ + o) += v; } T r__readgs##N(u32 o){ return *(T *)(gs_ + o); } void r__writegs##N(u32 o, T v){ *(T *)(gs_ + o) = v; }
GS(u8, byte) GS(u16, word) GS(u32, dword) GS(u64, qword)
#define ADDC(T, N) u8 r_addcarry_u##N(u8 c, T a, T b, T *o){ u128 s = (u128)a + b + (c != 0); *o = (T)s; return s >> N; }
ADDC(u8, 8) ADDC(u16, 16) ADDC(u32, 32) ADDC(u64, 64)
u16 r_byteswap_ushort(u16 v){ return v << 8 | v >> 8; } u32 r_byteswap_ulong(u32 v){ return v << 24 | (v & 0xff00) << 8 | (v >> 8 & 0xff00) | v >> 24; } u64 r_byteswap_uint64(u64 v){ return (u64)r_byteswap_ulong((u32)v) << 32 | r_byteswap_ulong((u32)(v >> 32)); }
#define ISO(T, N) T r__iso_volatile_load##N(const volatile T *p){ return *p; } void r__iso_volatile_store##N(volatile T *p, T v){ *p = v; }
ISO(s8, 8) ISO(s16, 16) ISO(int, 32) ISO(s64, 64)
int r__builtin_ctz(u32 v){ return scanf_(v); } int r__builtin_clz(u32 v){ return 31 - scanr_(v); } int r__builtin_ffs(int v){ return v ? scanf_((u32)v) + 1 : 0; } int r__builtin_ffsll(s64 v){ return v ? scanf_(v) + 1 : 0; } int r__builtin_expect(int a, int b){ return a; }
void r_ReadWriteBarrier(void){} void r__faststorefence(void){}
'''

SCALAR = [t for t in TABLE if not t[1].startswith(('_mm', '_MM'))]
MODEL_NAMES = [t[1] for t in SCALAR if t[1] != '__builtin_trap']
MODEL += ''.join('#define %s r%s\n' % (n, n) for n in MODEL_NAMES)
COMMON = '''
static void put_(void *d, void *s, int n){ u8 *a = d, *b = s; while (n--) *a++ = *b++; }
static int opaque_(int x){ volatile int y = x; return y; }
static void lps_(void *p, int n){ u32 v[8]; put_(v, p, n * 4); for (int i = 0; i < n; i++) h_log((v[i] & 0x7fffffff) > 0x7f800000 ? 0x7fc00000 : v[i]); }
static void lpd_(void *p, int n){ u64 v[4]; put_(v, p, n * 8); for (int i = 0; i < n; i++) h_log((v[i] & 0x7fffffffffffffffull) > 0x7ff0000000000000ull ? 0x7ff8000000000000ull : v[i]); }
'''
THREADS = '''
__declspec(dllimport) void *CreateThread(void *, u64, u32 (*)(void *), void *, u32, u32 *); __declspec(dllimport) u32 WaitForSingleObject(void *, u32);
'''

ALIGNED = {'_mm_load_ps', '_mm_loadr_ps', '_mm_store_ps', '_mm_store_ps1', '_mm_store1_ps', '_mm_storer_ps', '_mm_load_pd', '_mm_loadr_pd', '_mm_store_pd', '_mm_store1_pd', '_mm_store_pd1', '_mm_storer_pd', '_mm_load_si128',
           '_mm_store_si128', '_mm_stream_pd', '_mm_stream_si128', '_mm_stream_ps', '_mm_stream_si32', '_mm_stream_si64'}
IMM = {'_mm_extract_epi16': 8, '_mm_insert_epi16': 8, '_mm_extract_epi32': 4, '_mm_extract_epi64': 2, '_mm_shuffle_pd': 4, '_mm_cmpistri': 128, '_mm_cmpestrc': 128, '_mm_prefetch': 4}
COMMUTES = re.compile(r'_mm\d*_(add|mul|hadd)_[ps][sd]$')
ARITH = re.compile(r'_(add|sub|mul|div|sqrt|min|max|hadd|rcp|rsqrt)_[ps][sd]$|_cvt')
CSR = re.compile(r'_mm_[sg]etcsr|_MM_')
F32 = [0x3f800000, 0x00000000, 0x80000000, 0xbfc00000, 0x40490fdb, 0x4f000000, 0xcf000000, 0x4effffff, 0x5f000000, 0x7f7fffff, 0x00800000, 0x00000001, 0x3f000000, 0x40200000, 0xc0200000, 0x7f800000, 0xff800000, 0x4b000001]
F64 = [0x3ff0000000000000, 0, 1 << 63, 0xbff8000000000000, 0x400921fb54442d18, 0x41e0000000000000, 0xc1e0000000000000, 0xc1e0000000200000, 0x43e0000000000000, 0x7fefffffffffffff, 0x10000000000000, 1, 0x3fe0000000000000, 0x4004000000000000, 0xc004000000000000,
       0x7ff0000000000000, 0xfff0000000000000, 0x47efffffe0000000, 0x36a0000000000000]
NAN32 = [0x7fc00000, 0xffc00001, 0x7f800001]
NAN64 = [0x7ff8000000000000, 0xfff8000000000001, 0x7ff0000000000001]
EDGE = {1: [0, 1, 0x7f, 0x80, 0xff], 2: [0, 1, 0x7fff, 0x8000, 0xffff, 0x80, 0xff00], 4: [0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0x10000], 8: [0, 1, 2**63 - 1, 2**63, 2**64 - 1, 2**32, 0x80000000]}


def params(p):
    out = []
    for i, a in enumerate(x.strip() for x in p.split(',')):
        if a in ('', 'void'):
            continue
        a = re.sub(r'\b(const|volatile)\b', '', a)
        m = re.match(r'^(.*?)(\w+)$', a.strip())
        t = ' '.join(m.group(1).replace('*', ' * ').split()).replace(' *', '*') or a
        out.append((t, m.group(2)))
    return out


FN = {n: (r.replace(' ', '') if '*' in r else r.strip(), params(p)) for r, n, p in TABLE}
BYRET = {}
for _n, (_r, _p) in FN.items():
    if _r in VEC and all(t in VEC or t in INTS or t in FLOATS for t, _ in _p):
        BYRET.setdefault(_r, []).append(_n)


class IntrinWorker(DiffWorker):
    prelude = PRELUDE.replace('void *memcpy(', 'static void *memcpy_(').replace('void *memmove(', 'static void *memmove_(').replace('void *memset(', 'static void *memset_(') + COMMON + MODEL + THREADS + \
        'void *memcpy(void *d, const void *s, u64 n){ char *a = d; const char *b = s; while (n--) *a++ = *b++; return d; }\nvoid *memset(void *d, int c, u64 n){ char *a = d; while (n--) *a++ = (char)c; return d; }\n'
    prelude_hlc = PRELUDE + COMMON + '#include <intrin.h>\n#include <stdatomic.h>\n' + THREADS
    clang_flags = ('-mavx2', '-maes', '-msse4.2', '-mcx16')
    clang_opt = '-O0'
    hlc_flags = ('/I', '.')

    def run_hlc(self, cases):
        for f, t in HEADERS.items():
            self.px.write(f, t)
        return super().run_hlc(cases)

    def run_ref(self, cases):
        r = super().run_ref(cases)
        return r

    def files(self, cases):
        f = super().files(cases)
        f.update(HEADERS)
        return f

    def gen(self, ch):
        k = ch.n(12)
        if k < 7:
            return self.vectors(ch)
        if k < 10:
            return self.scalars(ch)
        if k == 10 or ch.chance(2, 3):
            return self.atomics(ch)
        return self.threads(ch)

    # -------------------------------------------------- operands
    def int_value(self, ch, w):
        k = ch.n(4)
        v = ch.of(EDGE[w]) if k < 2 else ch.n(256) & (2 ** (8 * w) - 1) if k == 2 else ch.bits(8 * w)
        return v

    def lit(self, v, t):
        w = INTS[t]
        if not t.startswith('unsigned') and v >= 2 ** (8 * w - 1):
            v -= 2 ** (8 * w)
        if w == 8:
            return '(-%dll - 1)' % (2 ** 63 - 1) if v == -2 ** 63 else '%d%s' % (v, 'ull' if t.startswith('unsigned') else 'll')
        return '(%s)%d%s' % (t, v, 'u' if v > 0x7fffffff else '') if v != -2 ** 31 else '(-2147483647 - 1)'

    def var(self, ch, o, t, init):
        """an operand that holds a value: a local, a volatile, a global, an element or a member"""
        i = o['n']
        o['n'] += 1
        k = ch.n(6)
        if k == 0:
            o['body'].append('%s a%d = %s;' % (t, i, init))
            return 'a%d' % i
        if k == 1:
            o['body'].append('volatile %s a%d = %s;' % (t, i, init))
            return 'a%d' % i
        if k == 2:
            o['decls'].append('static %s g@_%d;' % (t, i))
            o['body'].append('g@_%d = %s;' % (i, init))
            return 'g@_%d' % i
        if k == 3:
            o['body'].append('%s a%d[3]; a%d[1] = %s; int j%d = opaque_(1);' % (t, i, i, init, i))
            return 'a%d[%s]' % (i, ch.of(['1', 'j%d' % i]))
        if k == 4:
            o['body'].append('struct { char c; %s m; } a%d; a%d.m = %s;' % (t, i, i, init))
            return 'a%d.m' % i
        o['body'].append('%s a%d = %s, *p%d = &a%d;' % (t, i, init, i, i))
        return '(*p%d)' % i

    def int_arg(self, ch, o, t, v=None, depth=0):
        w = INTS[t]
        if v is None:
            if depth < 1 and ch.chance(1, 8):
                c = [n for n in ('_byteswap_ulong', '__popcnt', '__lzcnt', '__popcnt64', '_byteswap_uint64', '__lzcnt64', '_lzcnt_u32')]
                n = ch.of(c)
                return '(%s)%s(%s)' % (t, n, self.int_arg(ch, o, FN[n][1][0][0], None, depth + 1))
            v = self.int_value(ch, w)
        l = self.lit(v, t)
        k = ch.n(6)
        if k < 2:
            return l
        x = self.var(ch, o, t, l)
        if k == 2:
            return '(%s)(%s + opaque_(0))' % (t, x)
        if k == 3:
            return '(%s)(%s ^ %d)' % (t, x, 0)
        return x

    def vec_data(self, ch, o, t):
        n = VEC[t][1]
        if t in ('__m128', '__m256'):
            d = b''.join(struct.pack('<I', ch.of(F32 + (NAN32 if o['nan'] else [])) if ch.chance(2, 3) else struct.unpack('<I', struct.pack('<f', (ch.n(20001) - 10000) / ch.of([1, 2, 3, 16, 1000])))[0]) for _ in range(n // 4))
        elif t == '__m128d':
            d = b''.join(struct.pack('<Q', ch.of(F64 + (NAN64 if o['nan'] else [])) if ch.chance(2, 3) else struct.unpack('<Q', struct.pack('<d', (ch.n(20001) - 10000) / ch.of([1, 2, 3, 16, 1000])))[0]) for _ in range(n // 8))
        else:
            w = ch.of([1, 2, 4, 8])
            d = b''.join(self.int_value(ch, w).to_bytes(w, 'little') for _ in range(n // w))
        return '{ %s }' % ', '.join('0x%xull' % v for v in struct.unpack('<%dQ' % (n // 8), d))

    def vec_arg(self, ch, o, t, plain, depth=0):
        i = o['n']
        o['n'] += 1
        if not plain and depth < 2 and ch.chance(1, 4):
            n = ch.of([x for x in BYRET[t] if not COMMUTES.search(x)])
            return self.call(ch, o, n, depth + 1)
        k = ch.n(6)
        d = self.vec_data(ch, o, t)
        o['decls'].append('static u64 d@_%d[] = %s;' % (i, d))
        if k < 2:
            o['body'].append('%s a%d; put_(&a%d, d@_%d, sizeof a%d);' % (t, i, i, i, i))
            return 'a%d' % i
        if k == 2:
            o['decls'].append('static %s g@_%d;' % (t, i))
            o['body'].append('put_(&g@_%d, d@_%d, sizeof g@_%d);' % (i, i, i))
            return 'g@_%d' % i
        if k == 3:
            o['body'].append('%s a%d[2]; put_(&a%d[1], d@_%d, sizeof a%d[1]); int j%d = opaque_(1);' % (t, i, i, i, i, i))
            return 'a%d[%s]' % (i, ch.of(['1', 'j%d' % i]))
        if k == 4:
            o['body'].append('%s a%d, *p%d = &a%d; put_(p%d, d@_%d, sizeof a%d);' % (t, i, i, i, i, i, i))
            return '*p%d' % i
        o['decls'].append('static %s f@_%d(int x){ %s v; put_(&v, d@_%d, sizeof v); return v; }' % (t, i, t, i))
        return 'f@_%d(%d)' % (i, i)

    def flt_arg(self, ch, o, t):
        v = '%r' % ((ch.n(2001) - 1000) / ch.of([1, 2, 8, 3]))
        v = '(%s%s)' % (v, 'f' if t == 'float' else '')
        return v if ch.chance(1, 3) else self.var(ch, o, t, v)

    def pointer(self, ch, o, t, fn):
        o['mem'] = True
        el = t.rstrip('*').strip()
        w = INTS.get(el) or FLOATS.get(el) or (16 if el in VEC else 8)
        al = 32 if '256' in fn else 16 if fn in ALIGNED or '128' in fn and el == '__int64' else 1 if fn.startswith(('_mm', '_bit', '_BitScan', '__stos', '__movs')) else w
        off = 16 * ch.n(4) if al <= 16 else 32 * ch.n(2)
        if al == 1 and ch.chance(1, 3):
            off += ch.n(16)
        elif al < 16 and w <= 8 and ch.chance(1, 2):
            off += w
        o['used'].append(off)
        return '(%s)(m@ + %d)' % (t, off)

    def call(self, ch, o, n, depth=0):
        ret, ps = FN[n]
        plain = bool(COMMUTES.search(n)) or depth > 0 and False
        a = []
        for t, nm in ps:
            if nm == 'imm8' or n == '_mm_prefetch' and nm == 'hint':
                a.append('%d' % (ch.n(IMM.get(n, 256)) if ch.chance(4, 5) or n in IMM else ch.n(20)))
            elif n.startswith('_mm_') and nm == 'count':
                o['n'] += 1
                i = o['n']
                o['body'].append('__m128i c%d; { u64 d[2] = { %d, %d }; put_(&c%d, d, 16); }' % (i, ch.of([0, 1, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 255, 2 ** 40]), ch.n(3), i))
                a.append('c%d' % i)
            elif t in VEC:
                a.append(self.vec_arg(ch, o, t, plain, depth))
            elif t.endswith('*'):
                a.append(self.pointer(ch, o, t, n))
            elif t in FLOATS:
                a.append(self.flt_arg(ch, o, t))
            elif n == '_mm_cmpestrc' and nm in ('la', 'lb'):
                a.append(self.int_arg(ch, o, t, ch.of([0, 1, 5, 15, 16, 17, ch.n(17)])))
            else:
                a.append(self.int_arg(ch, o, t))
        return '%s(%s)' % (n, ', '.join(a))

    def emit_log(self, o, n, call):
        ret = FN[n][0]
        b = o['body']
        i = o['n']
        o['n'] += 1
        if ret == 'void':
            b.append('%s;' % call)
        elif ret in VEC:
            b.append('%s r%d = %s;' % (ret, i, call))
            if ARITH.search(n):
                b.append('%s(&r%d, %d);' % ('lpd_' if ret == '__m128d' else 'lps_', i, VEC[ret][1] // (8 if ret == '__m128d' else 4)))
            else:
                b.append('h_mem(&r%d, %d);' % (i, VEC[ret][1]))
        elif ret == 'float':
            b.append('h_f32(%s);' % call)
        elif ret == 'double':
            b.append('h_f64(%s);' % call)
        elif ret in INTS:
            b.append('h_log((u64)(s64)%s);' % call)
        else:
            b.append('h_log((u64)%s);' % call)

    def start(self, ch):
        o = {'decls': [], 'body': [], 'n': 0, 'mem': False, 'used': [], 'nan': ch.chance(1, 3)}
        return o

    def finish(self, ch, o, tags, nontrivial=True):
        init = []
        if o['mem']:
            if o['nan']:
                d = [ch.bits(64) for _ in range(16)]
            else:       # floats of both sizes, and also integers
                d = [ch.of(F64[:12]) if ch.chance(1, 2) else ch.of(F32[:12]) | ch.of(F32[:12]) << 32 for _ in range(16)]
            o['decls'].append('static _Alignas(32) u8 m@[128]; static u64 md@[] = { %s };' % ', '.join('0x%xull' % v for v in d))
            init.append('put_(m@, md@, 128);')
            o['body'].append('h_mem(m@, 128);')
        return Case('\n'.join(o['decls']), '\n'.join(init + o['body']), nontrivial, tags)

    # -------------------------------------------------- families
    def vectors(self, ch):
        o = self.start(ch)
        tags = set()
        names = [n for n in FN if n.startswith('_mm') and not CSR.match(n) and not (o['nan'] and COMMUTES.search(n)) and not (o['nan'] and '_mm_rsqrt' in n)]
        for _ in range(1 + ch.n(6)):
            n = ch.of(names)
            tags.add(n)
            self.emit_log(o, n, self.call(ch, o, n))
            if o['mem'] and ch.chance(1, 2):
                o['body'].append('h_mem(m@, 128);')
        return self.finish(ch, o, tags)

    def scalars(self, ch):
        o = self.start(ch)
        o['nan'] = False
        tags = set()
        b = o['body']
        gs = False
        for _ in range(1 + ch.n(7)):
            n = ch.of([t[1] for t in SCALAR if t[1] != '__builtin_trap'] + [x for x in FN if CSR.match(x)])
            tags.add(n)
            ret, ps = FN[n]
            A = lambda j, v=None: self.int_arg(ch, o, ps[j][0], v)
            if n.startswith('_BitScan'):
                v = self.int_value(ch, INTS[ps[1][0]])
                x = self.var(ch, o, 'u32', '77')
                b.append('{ u8 q = %s(&%s, %s); h_log(q); if (q) h_log(%s); }' % (n, x, A(1, v), x))
            elif 'ctz' in n or 'clz' in n:
                self.emit_log(o, n, '%s(%s)' % (n, A(0, self.int_value(ch, 4) or 8)))
            elif n == '_udiv128':
                d = self.int_value(ch, 8) or 3
                h = ch.bits(64) % d
                self.emit_log(o, n, '%s(%s, %s, %s, %s)' % (n, A(0, h), A(1), A(2, d), self.pointer(ch, o, 'unsigned __int64*', n)))
            elif n.startswith('_bittest'):
                o['mem'] = True
                i = ch.of([0, 1, 31, 32, 63, 64, 100, -1, -32, -64, -65, ch.n(480) - 240])
                w = INTS[ps[1][0]]
                self.emit_log(o, n, '%s((%s)(m@ + 64), %s)' % (n, ps[0][0], A(1, i & (2 ** (8 * w) - 1))))
            elif n.startswith('__stos'):
                w = INTS[ps[1][0]]
                self.emit_log(o, n, '%s((%s)(m@ + %d), %s, %s)' % (n, ps[0][0], ch.n(40), A(1), A(2, ch.n(9))))
                o['mem'] = True
            elif n.startswith('__movs'):
                s, d = ch.n(40), ch.n(40)
                o['mem'] = True
                self.emit_log(o, n, '%s((%s)(m@ + %d), (%s)(m@ + %d), %s)' % (n, ps[0][0], d, ps[1][0], s, A(2, ch.n(9))))
            elif n == '_InterlockedCompareExchange128':
                o['mem'] = True
                k = ch.n(5)
                if k < 3:       # equal, equal in one half
                    b.append('put_(m@ + 64, m@, 16);')
                    if k:
                        b.append('m@[%d] ^= 1;' % (64 + ch.n(16)))
                self.emit_log(o, n, '%s((__int64 *)m@, %s, %s, (__int64 *)(m@ + 64))' % (n, A(1), A(2)))
            elif 'CompareExchange' in n:
                p = self.pointer(ch, o, ps[0][0], n)
                if ret == 'void*':
                    c = ch.of(['*' + p, '(void *)5'])
                    self.emit_log(o, n, '%s(%s, (void *)%s, %s)' % (n, p, A_(self, ch, o), c))
                else:
                    c = ch.of(['*' + p, self.int_arg(ch, o, ps[2][0])])
                    self.emit_log(o, n, '%s(%s, %s, %s)' % (n, p, A(1), c))
            elif n == '_InterlockedExchangePointer':
                self.emit_log(o, n, '%s(%s, (void *)%s)' % (n, self.pointer(ch, o, ps[0][0], n), A_(self, ch, o)))
            elif 'gs' in n and n.startswith('__'):
                if not gs:
                    gs = True
                    b.append('__writegsqword(0x200, 0x8070605040302010ull); __writegsqword(0x208, 0xfffefdfcfbfaf9f8ull);')
                off = 0x200 + ch.n(9)
                self.emit_log(o, n, '%s(%s)' % (n, ', '.join([self.int_arg(ch, o, ps[0][0], off)] + [A(j) for j in range(1, len(ps))])))
                b.append('h_log(__readgsqword(0x200)); h_log(__readgsqword(0x208));')
            elif CSR.match(n):
                tags.add('csr')
                v = {'_mm_setcsr': [0x1f80, 0x3f80, 0x9fc0, 0x7f80], '_MM_SET_EXCEPTION_STATE': [0, 1, 0x3f, 0x20], '_MM_SET_EXCEPTION_MASK': [0x1f80], '_MM_SET_ROUNDING_MODE': [0, 0x2000, 0x4000, 0x6000], '_MM_SET_FLUSH_ZERO_MODE': [0, 0x8000]}.get(n)
                if v:
                    b.append('%s(%s);' % (n, self.int_arg(ch, o, 'unsigned int', ch.of(v))))
                    x = self.vec_arg(ch, o, '__m128d', True)
                    y = self.vec_arg(ch, o, '__m128', True)
                    b.append('h_log(_mm_getcsr() & 0xffc0); h_log(_mm_cvtsd_si64(%s)); h_log(_mm_cvtss_si32(%s)); h_log(_MM_GET_ROUNDING_MODE()); h_log(_MM_GET_FLUSH_ZERO_MODE());' % (x, y))
                    if n == '_MM_SET_EXCEPTION_STATE':
                        b.append('%s(%d); h_log(_mm_getcsr());' % (n, ch.of(v)))
                elif n != '_mm_getcsr' and 'STATE' not in n:
                    self.emit_log(o, n, n + '()')
            else:
                if n == '__builtin_expect':
                    self.emit_log(o, n, '%s(%s, %s)' % (n, A(0), ch.n(2)))
                    continue
                self.emit_log(o, n, self.call(ch, o, n))
            if o['mem'] and ch.chance(1, 2):
                b.append('h_mem(m@, 128);')
        if 'csr' in tags:
            b.append('_mm_setcsr(0x1f80);')
        return self.finish(ch, o, tags)

    ATOM = [('char', 'char'), ('short', 'short'), ('int', 'int'), ('llong', 'long long'), ('uchar', 'unsigned char'), ('ushort', 'unsigned short'), ('uint', 'unsigned int'), ('ullong', 'unsigned long long')]

    def atomics(self, ch):
        o = self.start(ch)
        tags = set()
        b = o['body']
        name, t = ch.of(self.ATOM)
        it = {'long long': '__int64', 'unsigned long long': 'unsigned __int64'}.get(t, t)
        tags.add(t)
        where = ch.n(4)
        if where == 0:
            o['decls'].append('static atomic_%s x@;' % name)
            x = 'x@'
        elif where == 1:
            b.append('atomic_%s x;' % name)
            x = 'x'
        elif where == 2:
            b.append('struct { char c; atomic_%s m; } s;' % name)
            x = 's.m'
        else:
            b.append('atomic_%s y[3], *px = y + opaque_(1);' % name)
            x = '*px'
        b.append('%s = %s; %s e; _Bool q; atomic_bool ab = 0; atomic_flag fl; atomic_flag_clear(&fl);' % (x, self.int_arg(ch, o, it), t))
        for _ in range(2 + ch.n(8)):
            k = ch.n(12)
            V = lambda: self.int_arg(ch, o, it)
            ord_ = ch.chance(1, 3)
            mo = ', memory_order_%s' % ch.of(['relaxed', 'acquire', 'release', 'acq_rel', 'seq_cst'])
            amp = '&' + x if not x.startswith('*') else ch.of(['px', '&*px'])
            L = 'h_log((u64)(s64)%s);'
            if k < 3:
                f = ch.of(['add', 'sub', 'or', 'xor', 'and'])
                tags.add('fetch_' + f)
                b.append(L % ('atomic_fetch_%s%s(%s, %s%s)' % (f, '_explicit' if ord_ else '', amp, V(), mo if ord_ else '')))
            elif k < 5:
                op = ch.of(['+=', '-=', '|=', '&=', '^='])
                tags.add(op)
                v = V()
                b.append('%s %s %s;' % (x, op, v) if ch.chance(1, 2) else L % ('(%s %s %s)' % (x, op, v)))
            elif k == 5:
                tags.add('exchange')
                b.append(L % ('atomic_exchange(%s, %s)' % (amp, V())))
            elif k == 6:
                tags.add('cas')
                b.append('e = %s; q = atomic_compare_exchange_%s(%s, &e, %s); h_log(q); h_log((u64)(s64)e);' % (ch.of([x, V()]), 'strong', amp, V()))
            elif k == 7:
                tags.add('incdec')
                b.append(L % ch.of(['(%s)++' % x, '(%s)--' % x, '++%s' % x, '--%s' % x]))
            elif k == 8:
                tags.add('store')
                b.append(ch.of(['atomic_store(%s, %s);', 'atomic_init(%s, %s);', 'atomic_store_explicit(%s, %s, memory_order_release);', '*(%s) = %s;', L % '(*(%s) = %s)']) % (amp, V()))
            elif k == 9:
                tags.add('flag')
                b.append(ch.of(['h_log(atomic_flag_test_and_set(&fl));', 'atomic_flag_clear(&fl);', 'h_log(atomic_flag_test_and_set_explicit(&fl, memory_order_acquire));', 'atomic_flag_clear_explicit(&fl, memory_order_release);', 'atomic_thread_fence(memory_order_seq_cst);', 'atomic_signal_fence(memory_order_seq_cst);']))
            elif k == 10:
                tags.add('bool')
                b.append(ch.of(['h_log(atomic_exchange(&ab, %d));', 'ab = %d; h_log(ab);', '{ _Bool e = %d; h_log(atomic_compare_exchange_strong(&ab, &e, 1)); h_log(e); h_log(ab); }']) % ch.n(2))
            else:
                b.append(L % ch.of(['atomic_load(%s)' % amp, x, 'atomic_load_explicit(%s, memory_order_acquire)' % amp, '(%s + %s)' % (x, V())]))
            if ch.chance(1, 2):
                b.append(L % x)
        b.append('h_log((u64)(s64)%s);' % x)
        return self.finish(ch, o, tags)

    def threads(self, ch):
        """updates of shared objects by several threads: none may get lost"""
        nt, k = 2 + ch.n(3), 4000 + 500 * ch.n(8)
        ops, logs, decl = [], [], []
        for i in range(1 + ch.n(4)):
            name, t = ch.of(self.ATOM)
            w = {'char': 8, 'short': 16, 'int': 32, 'llong': 64}[name.lstrip('u') if name != 'ullong' else 'llong']
            step = 1 + ch.n(100)
            kind = ch.of(['+=', '-=', '^=', 'add', 'sub', 'cas', 'xor', 'inc', 'exadd', 'icas', 'ixor', 'flag', 'or'])
            total = {'-=': -step, 'sub': -step}.get(kind, step) * nt * k
            x = 'x@_%d' % i
            if kind in ('inc', 'exadd', 'icas', 'ixor'):
                s, it, w = ch.of([('8', 'char', 8), ('16', 'short', 16), ('', 'int', 32), ('64', 'long long', 64)])
                decl.append('static volatile %s %s;' % (it, x))
                if kind == 'inc':
                    f = ch.of(['Increment', 'Decrement'])
                    ops.append('_Interlocked%s%s(&%s);' % (f, s, x))
                    total = nt * k * (1 if f == 'Increment' else -1)
                elif kind == 'exadd':
                    ops.append('_InterlockedExchangeAdd%s(&%s, %d);' % (s, x, step))
                elif kind == 'ixor':
                    ops.append('_InterlockedXor%s(&%s, %d << id);' % (s, x, 1))
                    total = 0 if k % 2 == 0 else (1 << nt) - 1
                else:
                    ops.append('for (;;){ %s old = %s; if (_InterlockedCompareExchange%s(&%s, (%s)(old + %d), old) == old) break; }' % (it, x, s, x, it, step))
            elif kind == 'flag':
                decl.append('static atomic_flag fl%s; static u64 %s;' % (x, x))
                ops.append('while (atomic_flag_test_and_set(&fl%s)); %s = %s + %d; atomic_flag_clear(&fl%s);' % (x, x, x, step, x))
                w = 64
            else:
                decl.append('static atomic_%s %s;' % (name, x))
                if kind in ('+=', '-='):
                    ops.append('%s %s %d;' % (x, kind, step))
                elif kind == '^=':
                    ops.append('%s ^= 1 << id;' % x)
                    total = 0 if k % 2 == 0 else (1 << nt) - 1
                elif kind == 'xor':
                    ops.append('atomic_fetch_xor(&%s, 1 << id);' % x)
                    total = 0 if k % 2 == 0 else (1 << nt) - 1
                elif kind == 'or':      # every thread sets and clears its own bit
                    ops.append('%s' % ch.of(['atomic_fetch_or(&%s, 1 << id); atomic_fetch_and(&%s, ~(1 << id));', '%s |= 1 << id; %s &= ~(1 << id);']) % (x, x) + ' if (%s >> id & 1) lost@ += 1;' % x)
                    total = 0
                elif kind == 'cas':
                    ops.append('{ %s e = %s; while (!atomic_compare_exchange_strong(&%s, &e, (%s)(e + %d))); }' % (t, x, x, t, step))
                else:
                    ops.append('atomic_fetch_%s(&%s, %d);' % (kind, x, step))
            logs.append((x, w, total))
        d = decl + ['static volatile int lost@; static u32 work@(void *arg){ int id = (int)(u64)arg; for (int i = 0; i < %d; i++){ %s } return 0; }' % (k, ' '.join(ops))]
        b = ['void *h[%d]; for (int i = 0; i < %d; i++) h[i] = CreateThread(0, 0, work@, (void *)(u64)i, 0, 0); for (int i = 0; i < %d; i++) WaitForSingleObject(h[i], -1); h_log(lost@);' % (nt, nt, nt)]
        r = ['h_log(0);']
        for x, w, total in logs:
            m = 2 ** w - 1
            b.append('h_log((u64)%s & %s);' % (x, '0x%xull' % m))
            r.append('h_log(0x%xull);' % (total & m))
        return Case('', ' '.join(r), True, ['threads'], '\n'.join(d), '\n'.join(b))


def A_(self, ch, o):
    return self.int_arg(ch, o, 'unsigned __int64')
