"""C19: mutated programs; hlc has to end with status 0, or with status 1 and a message"""
import re
from .core import *
from .diff import *
from . import gen_int, gen_float, gen_stmt, gen_const, gen_layout, gen_init, gen_agg, gen_lit, gen_pp, gen_asm, gen_intrin, gen_print, gen_pe, gen_seh, gen_link, gen_order, gen_dead, gen_abi, gen_obj, gen_invalid, gen_rt

SOURCES = [gen_int.IntWorker, gen_float.FloatWorker, gen_stmt.StmtWorker, gen_const.ConstWorker, gen_layout.LayoutWorker, gen_init.InitWorker, gen_agg.AggWorker, gen_lit.LitWorker, gen_intrin.IntrinWorker, gen_asm.AsmRunWorker,
           gen_pp.PPWorker, gen_seh.SehWorker, gen_link.LinkWorker, gen_dead.DeadWorker, gen_abi.AbiWorker, gen_pe.PeWorker, gen_obj.ObjWorker, gen_invalid.InvalidWorker, gen_print.PrintWorker, gen_order.OrderWorker]
TOKEN = re.compile(r'''\s+|//[^\n]*|/\*.*?\*/|[A-Za-z_]\w*|\.?\d(?:[eEpP][+-]|[\w.])*|"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*'|\.\.\.|<<=|>>=|##|->|\+\+|--|<<|>>|[<>=!]=|&&|\|\||[-+*/%&|^]=|.''', re.S)
WORDS = '''auto break case char const continue default do double else enum extern float for goto if inline int long register return short signed sizeof static struct switch typedef union unsigned void volatile while
_Alignas _Alignof _Atomic _Bool _Static_assert _Thread_local _Noreturn _Generic __declspec __asm __attribute__ __try __except __leave typeof align dllexport dllimport thread selectany noreturn printlike noinline
__int64 __int32 __int128 __cdecl __stdcall __forceinline __pragma __func__ __VA_ARGS__ __LINE__ __COUNTER__ offsetof __builtin_offsetof __va_start main x y z t0 s32 u64 f64 u8
define undef include if ifdef ifndef elif else endif error warning pragma line defined pack push pop once'''.split()
PUNCT = list('()[]{};,.:?~!+-*/%&|^=<>#\\@$`"\'') + ['->', '++', '--', '<<', '>>', '<=', '>=', '==', '!=', '&&', '||', '...', '<<=', '+=', '##', '\n', '\n#', ' ', '/*', '*/', '//']
LITS = ['0', '1', '-1', '0x', '0xffffffffffffffff', '18446744073709551616', '1e400', '1e', '0b1', '0b', '09', '1.0f', '.5', '1ull', '1uz', "'a'", "''", "'ab'", "L'x'", '""', '"a"', 'L"a"', 'u8"a"', '"\\x"', '"\\', "'\\400'", '4294967296', '2147483648', '1.e+', '0x1p', '0x1.8p3']
SNIPPETS = ['int a[];', 'struct S;', 'struct S { int x; };', 'enum E { A, B = A };', 'union U { int a; float b; } u;', 'typedef int T;', 'int f(int, ...);', 'int (*fp)(int);', 'int *p = &*p;', '{ 0 }', '{ .x = 1, [2] = 3 }', '[0 ... 3] = 1', 'case 1:', 'default:', 'L:', 'goto L;', 'switch (x) {', 'for (;;)',
            '(struct S){1}', 'sizeof(int)', '_Alignas(16)', '__declspec(align(32))', '__declspec(dllexport)', 'int b : 3;', 'int : 0;', 'void', '(void)', 'f()', 'a[1]', 'x.y', 'x->y', '*x', '&x', '(int)', '(double)', '(char *)', 'x ? y : z', 'x = y', '(x, y)', 'return x;', 'return;', 'else', 'if (x)', 'do {} while (0);', '_Generic(x, int: 1, default: 2)',
            '__asm { mov eax, 1 }', '__asm { mov x, rax\n }', '__try { } __except (1) { }', '_Static_assert(1, "x");', '#define M x', '#define F(a, ...) a ## x #a __VA_ARGS__', 'F(1, 2)', 'F(', 'M', '#if 1', '#endif', '#else', '#elif x', '#undef M', '#include "nofile.h"', '#pragma pack(push, 1)', '#pragma pack(pop)', '#line 3 "q.c"', '#error x', '#pragma once', '#pragma comment(lib, "x")',
            'typeof(x)', 'static', 'extern', 'const', 'volatile', '_Atomic int', 'unsigned long long', 'long double', 'int main(void) { return 0; }', 'int g(a, b) int a; char b; { return a; }', 'struct { int a; struct { int b; }; } an;', 'enum { Q };', 'int v[x];', '__func__', 'va_list', '"a" "b"', "L\"a\" \"b\"", 'x++', '--x', '!x', '~x', 'a + b', 'a << b', 'a && b', 'a == b', '(', ')', '{', '}', '[', ']', ';', ',']


def tokens(t):
    return TOKEN.findall(t)


def soup(ch):
    """a program from snippets and tokens alone"""
    o = []
    for _ in range(ch.r(1, 40)):
        o.append(ch.of(ch.weighted([(5, SNIPPETS), (3, WORDS), (3, PUNCT), (1, LITS)])))
        o.append(ch.of([' ', ' ', ' ', '\n', '']))
    return ''.join(o)


BINOP = '+ - * / % & | ^ << >> && || == != < > <= >= = += -= *= /= %= &= |= ^= <<= >>= , ?'.split()
TYPES = 'int char short long float double void unsigned signed _Bool u8 u16 u32 u64 s8 s16 s32 s64 f32 f64 __int64 __m128 __m256i _Atomic const volatile static extern'.split()
NUMS = ['0', '1', '-1', '2', '3', '7', '8', '31', '32', '63', '64', '127', '128', '255', '256', '-128', '32768', '65535', '65536', '2147483648', '(-2147483647-1)', '4294967295u', '4294967296', '9223372036854775807', '18446744073709551615ull', '1.5', '0.0', '-0.5f', '1e300', "'a'", '"str"', '(void*)0', '(char)1', '1000']
UNOP = ['-', '+', '!', '~', '*', '&', '++', '--', 'sizeof ', '(int)', '(char)', '(double)', '(void *)', '(unsigned)', '(_Bool)', '(long long)', '(float)', '_Alignof']


def gentle(ch, toks):
    """keeps the token structure: names, numbers, operators and types change places with others of their kind"""
    toks = list(toks)
    if not toks:
        return toks
    by = {}
    for i, t in enumerate(toks):
        k = 'num' if t[0].isdigit() else 'type' if t in TYPES else 'op' if t in BINOP else 'name' if re.match(r'[A-Za-z_]\w*$', t) and t not in WORDS else None
        if k:
            by.setdefault(k, []).append(i)
    for _ in range(ch.weighted([(5, 1), (3, 2), (2, 3), (1, 6)])):
        ks = [k for k in ('num', 'type', 'op', 'name', 'name') if k in by]
        if not ks:
            break
        k = ch.of(ks)
        i = ch.of(by[k])
        if k == 'num':
            toks[i] = ch.of(NUMS)
        elif k == 'type':
            toks[i] = ch.of(TYPES) + ch.of(['', '', ' *'])
        elif k == 'op':
            toks[i] = ch.of(BINOP)
        else:
            w = ch.n(5)
            toks[i] = ch.of(UNOP) + toks[i] if w == 0 else toks[i] + ch.of(['++', '--', '[0]', '()', '.x', '->x', '[1][2]', '(1, 2)']) if w == 1 else ch.of(NUMS) if w == 2 else toks[ch.of(by['name'])]
    return toks


def mutate(ch, toks, other):
    toks = list(toks)
    for _ in range(ch.weighted([(4, 1), (3, 2), (2, 3), (2, 6), (1, 15)])):
        n = len(toks)
        if not n:
            toks = ['int']
            n = 1
        k = ch.weighted([(4, 'delete'), (3, 'replace'), (4, 'insert'), (2, 'swap'), (2, 'dup'), (2, 'cut'), (2, 'copy'), (1, 'splice'), (1, 'trunc'), (1, 'byte'), (1, 'same'), (1, 'deep')])
        i = ch.n(n)
        while toks[i].isspace() and i + 1 < n:
            i += 1
        if k == 'delete':
            del toks[i]
        elif k == 'replace':
            toks[i] = ch.of(ch.weighted([(3, WORDS), (3, PUNCT), (2, LITS), (2, SNIPPETS)]))
        elif k == 'insert':
            toks.insert(i, ' ' + ch.of(ch.weighted([(3, WORDS), (3, PUNCT), (2, LITS), (3, SNIPPETS)])) + ' ')
        elif k == 'swap':
            j = ch.n(n)
            toks[i], toks[j] = toks[j], toks[i]
        elif k == 'dup':
            toks.insert(i, toks[i])
        elif k == 'cut':
            del toks[i:i + ch.r(1, 20)]
        elif k == 'copy':
            l = ch.r(1, 20)
            j = ch.n(n)
            toks[j:j] = toks[i:i + l]
        elif k == 'splice' and other:
            j = ch.n(len(other))
            toks[i:i] = other[j:j + ch.r(1, 30)]
        elif k == 'trunc':
            del toks[i:]
        elif k == 'byte':
            t = toks[i]
            p = ch.n(len(t) + 1)
            toks[i] = t[:p] + chr(ch.of([0x80, 0xff, 1, 9, 10, 13, 0x5c, 0x22, 0x27, 0x23, 0x40, 0x24, 0x60, 0xc3, 0xe9, 12, 26, ch.r(1, 255)])) + t[p:]
        elif k == 'same':
            names = [x for x in toks if re.match(r'[A-Za-z_]\w*$', x)]
            if names:
                toks[i] = ch.of(names)
        elif k == 'deep':
            m = ch.of([3, 20, 100])
            a, b = ch.of([('(', ')'), ('{', '}'), ('[', ']'), ('-', ''), ('*', ''), ('!', ''), ('sizeof ', ''), ('(int)', ''), ('struct { ', ' x; }'), ('if (1) ', ''), ('1 ? ', ' : 2')])
            toks[i] = a * m + toks[i] + b * m
    return toks


class FuzzWorker(GenWorker):
    max_shrink_s = 25
    line_shrink = True
    SDK = False

    def base_text(self, ch):
        k = ch.n(len(SOURCES) + 2)
        if k >= len(SOURCES):
            return None
        cls = SOURCES[k]
        if not hasattr(self, '_src'):
            self._src = {}
        w = self._src.get(cls)
        if w is None:
            w = self._src[cls] = cls.__new__(cls)
            w.px = self.px
        cs = w.gen(ch)
        if isinstance(cs, GCase):
            fl = cs.files()
            names = sorted(f for f in fl if f.endswith('.c'))
            t = fl[ch.of(names)]
            return t if isinstance(t, str) else t.decode('latin-1')
        pre = getattr(cls, 'prelude_hlc', None) or cls.prelude
        return assemble([cs], pre, True)

    def gen(self, ch):
        t = self.base_text(ch)
        if t is None:
            toks = tokens(soup(ch))
            tag = 'soup'
        else:
            toks = tokens(t)
            tag = 'mutated program'
        # most of the prelude stays as it is: mutations go behind its last line
        p = 0
        if t is not None and ch.chance(7, 8):
            acc = 0
            k = t.rfind('void *memset')
            k = t.find('#endif', k) if k >= 0 else 0
            while p < len(toks) and acc < k:
                acc += len(toks[p])
                p += 1
        other = tokens(soup(ch)) if ch.chance(1, 6) else []
        if t is not None and ch.chance(1, 2):
            toks = toks[:p] + gentle(ch, toks[p:])
            tag = 'changed within its structure'
        else:
            toks = toks[:p] + mutate(ch, toks[p:], other)
        # every use of __finally is the known finding `finally` of C17
        text = ''.join(toks).replace('__finally', '__except(1)')
        c = GCase(text, {'a.c': text})
        c.nontrivial = len(text) > 10
        c.tags = [tag]
        c.data = ch.of([['/obj'], ['/dll', '/no_entry', '/no_stdlib', '/no_debug'], ['/dll', '/no_entry', '/no_stdlib'], ['/obj', '/Wall'], ['/Zs', '/no_stdlib'], ['/obj', '/no_stdlib']])
        return c

    def classify(self, case, what, detail):
        if 'allocate_specific_register - ' in what and 'inline_asm__was_use' in what:
            return 'asm-register-in-use'
        return None

    def judge(self, case):
        open(self.px.path('a.c'), 'wb').write(case.text.encode('latin-1', 'replace'))
        out = [] if '/Zs' in case.data else ['/out:a.' + ('obj' if '/obj' in case.data else 'dll')]
        r = self.px.hlc(case.data + ['/quiet', 'a.c'] + out + ([winpath(BUILD + '/harness6.lib')] if '/dll' in case.data else []), timeout=20)
        t = r.text
        self.last = r.status
        if r.abnormal == 'signal 25' or 'Ran out of memory' in t:
            return 'discard', 'larger than the limits of the harness', ''
        if r.abnormal:
            return 'bad', 'the compiler ends abnormally, ' + key_of(r).replace(':', ' -'), t[-1500:]
        if r.status not in (0, 1):
            return 'bad', 'status %d' % r.status, t[-1500:]
        if r.status == 1 and 'rror' not in t:
            return 'bad', 'status 1 without an error message', t[-1500:]
        return 'ok', '', ''


def key_of(r):
    t = r.text
    m = re.search(r"ASSERT FIRED: '(.*?)' in function (\w+)", t, re.S)
    if m:
        return 'assert %s: %s' % (m.group(2), m.group(1)[:80])
    m = re.search(r'Internal Compiler Error[^\n]*', t)
    if m:
        return re.sub(r'0x[0-9a-f]+|\d+', 'N', m.group(0))[:100]
    m = re.search(r'PEX-CRASH signal (\d+) at (\S+)', t)
    if m:
        return 'signal %s at %s' % m.groups()
    return r.abnormal[:80]
