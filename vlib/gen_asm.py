"""C20: the inline assembler. Single instructions are compared with what llvm-mc makes of the same text (both disassembled by llvm-objdump); see AsmRunWorker for blocks that run."""
import re, subprocess
from .core import *
from .diff import *
from .asm_table import TABLE

R8 = ['rax', 'rcx', 'rdx', 'rbx', 'rsp', 'rbp', 'rsi', 'rdi'] + ['r%d' % i for i in range(8, 16)]
R4 = ['eax', 'ecx', 'edx', 'ebx', 'esp', 'ebp', 'esi', 'edi'] + ['r%dd' % i for i in range(8, 16)]
R2 = ['ax', 'cx', 'dx', 'bx', 'sp', 'bp', 'si', 'di'] + ['r%dw' % i for i in range(8, 16)]
R1 = ['al', 'cl', 'dl', 'bl', 'spl', 'bpl', 'sil', 'dil'] + ['r%db' % i for i in range(8, 16)]
REGS = {1: R1, 2: R2, 4: R4, 8: R8}
PTR = {1: 'byte', 2: 'word', 4: 'dword', 8: 'qword', 16: 'xmmword', 32: 'ymmword'}
GLOBALS = {1: 'g1', 2: 'g2', 4: 'g4', 8: 'g8', 16: 'g16', 32: 'g32'}
DECLS = '''#include <intrin.h>
unsigned char g1; unsigned short g2; unsigned g4; unsigned long long g8; __m128 g16; __m256 g32; int h4;
struct { char pad[20]; unsigned char m1; unsigned short m2; unsigned m4; unsigned long long m8; __m128 m16; __m256 m32; } gs_;
'''
OFFS = {1: 20, 2: 22, 4: 24, 8: 32, 16: 48, 32: 64}
CC = {'jb': 0}
ALIASES = [p + c for p in ('cmov', 'set') for c in ('b', 'nae', 'nb', 'ae', 'e', 'ne', 'na', 'a', 'pe', 'po', 'nge', 'ge', 'ng', 'g')]
KINDS = {n: [k.split() for k in o] for n, o in TABLE}
for a in ALIASES:
    KINDS[a] = KINDS['cmovz' if a[0] == 'c' else 'setz']
# several tables of the assembler only accept what the processor has in one size
for n in ('lock', 'repe', 'int1'):
    KINDS.pop(n, None)
VECTOR_ONLY_Y = re.compile('^v')
NAMES = sorted(n for n, o in KINDS.items() if not any('l' in k for k in o))
GPR = [n for n in NAMES if KINDS[n] and any('r1' in k or 'r8' in k or 'm1' in k for k in KINDS[n])]
SHIFTS = {'rol', 'ror', 'rcl', 'rcr', 'shl', 'shr', 'sal', 'sar'}
LOCKABLE = {'add', 'or', 'adc', 'sbb', 'and', 'sub', 'xor', 'inc', 'dec', 'neg', 'xadd', 'cmpxchg', 'xchg', 'bts', 'btr', 'btc', 'cmpxchg16b', 'cmpxchg8b'}
HALF = {'cvtps2pd', 'cvtdq2pd'}
ANYSIZE = {'lea', 'clflush', 'prefetch', 'cmpxchg16b', 'cmpxchg8b'}
MIXED = {'movzx', 'movsx', 'movsxd', 'crc32'} | SHIFTS


def imm_text(ch, v):
    return '%d' % v if v < 0 or ch.chance(1, 2) else '0x%x' % v


class AsmCase:
    def __init__(self, insts):
        self.insts = insts
        self.tags = {i[2] for i in insts}
        self.nontrivial = True
        self.text = '\n'.join(i[0] for i in insts)

    def files(self):
        return {'program.c': program(self.insts), 'reference.s': reference(self.insts)}


def program(insts):
    return DECLS + ''.join('void f%d(void){ unsigned char l1 = 0; unsigned short l2 = 0; unsigned l4 = 0; unsigned long long l8 = 0; __asm__{ int 0x41 %s int 0x42 } }\n' % (i, t[0]) for i, t in enumerate(insts))


def reference(insts):
    return '.intel_syntax noprefix\n' + ''.join('f%d: int 0x41\n%s\nint 0x42\n' % (i, t[1]) for i, t in enumerate(insts))


def disassemble(path, n):
    """-> list of n lists of normalised instruction texts"""
    p = subprocess.run(['llvm-objdump-18', '-d', '-r', '--x86-asm-syntax=intel', '--no-show-raw-insn', path], capture_output=True, text=True)
    if p.returncode:
        raise CheckError('llvm-objdump: ' + p.stderr[:300])
    out = {}
    cur = fn = None
    pend = []
    for l in p.stdout.split('\n'):
        m = re.match(r'^[0-9a-f]+ <(\w+)>:$', l)
        if m:
            pend.append([int(l.split()[0], 16), ':' + m.group(1), None])
            continue
        m = re.match(r'^\s*([0-9a-f]+): +\t(.*)$', l)
        if m:
            pend.append([int(m.group(1), 16), m.group(2).split('#')[0].strip(), None])
            continue
        m = re.match(r'^\s*([0-9a-f]+):\s+IMAGE_REL_AMD64_(\w+)\t(\S+)', l)
        if m and pend:
            pend[-1][2] = (int(m.group(1), 16), m.group(2), m.group(3))
    for i, (at, t, rel) in enumerate(pend):
        t = re.sub(r'\s+', ' ', t)
        if t[0] == ':':
            if cur is not None:
                out[fn] = cur + ['(goes on)']
            fn, cur = t[1:], None
            continue
        if t == 'int 0x41':
            cur = []
            continue
        if t == 'int 0x42':
            if cur is not None:
                out[fn] = cur
            cur = None
            continue
        if cur is None:
            continue
        if rel:
            end = pend[i + 1][0] if i + 1 < len(pend) else at
            trail = end - rel[0] - 4
            k = int(rel[1][6:]) if rel[1].startswith('REL32_') else 0
            m = re.search(r'\[rip( [+-] 0x[0-9a-f]+)?\]', t)
            disp = int((m.group(1) or '0').replace(' ', ''), 16) if m else 0
            name = rel[2].split('+')[0].split('-')[0]
            a = re.search(r'([+-])(0x[0-9a-f]+|\d+)$', rel[2])
            if a:
                disp += int(a.group(1) + a.group(2), 0)
            t = re.sub(r'\[rip[^\]]*\]', '[%s%+d]' % (name, disp + trail - k), t)
        if cur and cur[-1] == 'lock':
            t = 'lock ' + t
            cur.pop()
        cur.append(norm(t))
    return [out.get('f%d' % i, ['(missing)']) for i in range(n)]


def norm(t):
    t = t.replace('movabs ', 'mov ').replace('lock; ', 'lock ')
    if ' gs:' in t or ':' in t:
        t = re.sub(r'^(rep|repne) (?!movs|stos)', '', t)
    if 'ptr' in t:
        t = re.sub(r'^mov([lh])pd ', r'mov\1ps ', t)   # the same memory accesses
    t = re.sub(r'^sal\b', 'shl', t)
    m = re.match(r'^(lock )?xchg (\w+), (\w+)$', t)
    if m:
        a, b = sorted([m.group(2), m.group(3)])
        t = 'nop' if a == b and (a in R8 or a in R2) else 'xchg %s, %s' % (a, b)
    t = re.sub(r'^(rol|ror|rcl|rcr|shl|shr|sar) ([^,]+)$', r'\1 \2, 0x1', t)
    t = re.sub(r'^(rol|ror|rcl|rcr|shl|shr|sar) (.*), 1$', r'\1 \2, 0x1', t)
    t = re.sub(r'(0x[0-9a-f]+|\d+)\*|\*(\d)\b', lambda m: m.group(0), t)
    m = re.match(r'^(v\w+ \w+), ([xy]mm\d+), ([xy]mm\d+)$', t)
    if m and t.split()[0] in COMMUTES:
        t = ', '.join([m.group(1)] + sorted(m.groups()[1:]))
    m = re.match(r'^(.*), (-?0x[0-9a-f]+|-?\d+)$', t)
    if m:
        w = width_of(m.group(1).split(' ', 1)[1].split(',')[0]) or 8
        t = '%s, 0x%x' % (m.group(1), int(m.group(2), 0) & (2 ** (8 * w) - 1))
    return t


COMMUTES = {'vaddps', 'vmulps', 'vpminub', 'vpxor', 'vpcmpeqb'}
FAMILY = {r: i for rs in REGS.values() for i, r in enumerate(rs)}
TEMP = re.compile(r'^(?:mov|movss|movsd|movaps|movups|movapd|movupd|movdqa|movdqu|vmovups) (\w+), (.*)$')


def width_of(operand):
    o = operand.replace('lock ', '').strip()
    for w, rs in REGS.items():
        if o in rs:
            return w
    for w, p in PTR.items():
        if o.startswith(p + ' ptr'):
            return w
    return 0


def fold(l):
    """hlc may load a constant or a variable into an unused register first: fold 'mov T, X; op .. T ..' into 'op .. X ..'"""
    if len(l) != 2:
        return l
    m = TEMP.match(l[0])
    if not m:
        return l
    t, x = m.groups()
    fam = [rs[FAMILY[t]] for rs in REGS.values()] if t in FAMILY else [t]
    ops = re.split(r'[ ,]+', l[1])
    hit = [o for o in fam if o in ops]
    if len(hit) != 1 or ops.count(hit[0]) != 1 or hit[0] == ops[1]:
        return l
    return [norm(re.sub(r'\b%s\b' % hit[0], x, l[1]))]


class AsmWorker(GenWorker):
    def gen(self, ch):
        return AsmCase([self.inst(ch) for _ in range(1 + ch.n(40))])

    # -------------------------------------------------- operands
    def reg(self, ch, w):
        return ch.of(REGS[w])

    def disp(self, ch):
        return ch.of([0, 0, 1, 8, 16, 0x7f, 0x80, 0x81, 0x1000, 0x7fffffff, -1, -8, -0x80, -0x81, -0x1000, -0x80000000, ch.n(4096) - 2048])

    def mem(self, ch, w, sized=True):
        """(hlc text, reference text)"""
        k = ch.weighted([(6, 0), (3, 1), (4, 2), (2, 3)])
        pre = PTR[w] + ' ptr ' if sized else ''
        if k == 2:
            n = GLOBALS[w]
            if ch.chance(1, 2):
                return n, '%s ptr [rip + %s]' % (PTR[w], n)
            return 'gs_.m%d' % w, '%s ptr [rip + gs_ + %d]' % (PTR[w], OFFS[w])
        if k == 3 and w <= 8:
            return 'l%d' % w, '%s ptr [rbp - 0x10]' % PTR[w]
        b = ch.of(R8)
        d = self.disp(ch)
        t = b
        if k == 1:
            s, i = ch.of([1, 2, 4, 8]), ch.of([r for r in R8 if r != 'rsp'])
            t += ' + %d*%s' % (s, i)
        if d or ch.chance(1, 6):
            t += ' %s %s' % ('-' if d < 0 else '+', imm_text(ch, abs(d)))
        seg = 'gs:' if ch.chance(1, 25) else ''
        t = seg + '[%s]' % t
        return pre + t, PTR[w] + ' ptr ' + t

    def imm(self, ch, w, signed=True):
        m = 2 ** (8 * w)
        v = ch.of([0, 1, 2, 5, 0x7f, 0x80, 0xff, -1, -0x80, 0x7fff, 0x8000, 0xffff, -0x8000, 0x7fffffff, 0x80000000, 0xffffffff, -0x80000000, 2**32, 2**63, 2**64 - 1, -2**63, ch.bits(8 * w)])
        if not -m // 2 <= v < m:
            v &= m - 1
        return v

    def inst(self, ch):
        n = ch.of(GPR) if ch.chance(1, 2) else ch.of(NAMES)
        kinds = KINDS[n]
        pre = ''
        if not kinds:
            if n.startswith(('movs', 'stos')) and ch.chance(1, 2):
                pre = 'rep '
            return pre + n, pre + n, n
        odd = ch.chance(1, 12)
        pick = [ch.of(k) for k in kinds]
        if not odd:
            # one width for the general purpose or the vector operands
            if n in SHIFTS:
                pick[1] = ch.of(['i1', 'cl'])
            elif n not in MIXED and len(kinds) > 1:
                for i in range(1, len(kinds)):
                    for fam in ('rm', 'xy'):
                        if pick[0][0] in 'rm' and pick[i][0] in 'rm' and pick[0][1:] != pick[i][1:]:
                            c = [k for k in kinds[i] if k[0] in 'rm' and k[1:] == pick[0][1:]]
                            if c:
                                pick[i] = ch.of(c)
                if n.startswith('v'):
                    wide = pick[0] in ('y', 'm32')
                    for i in range(1, len(kinds)):
                        if pick[i] in ('x', 'y', 'm16', 'm32') and len(kinds[i]) > 2:
                            c = [k for k in kinds[i] if (k in ('y', 'm32')) == wide and k[0] in 'xym']
                            if c:
                                pick[i] = ch.of(c)
            ms = [i for i, k in enumerate(pick) if k[0] == 'm']
            if False:
                c = [k for k in kinds[ms[1]] if k[0] not in 'mi' and (k[0] != 'r' or k[1:] == pick[ms[0]][1:])]
                if c:
                    pick[ms[1]] = ch.of(c)
            if n == 'movsxd':
                pick = [ch.of(['r8']), ch.of(['r4', 'm4'])]
            if n == 'crc32':
                pick = [k for k in ch.of([('r4', ch.of(['r1', 'r2', 'r4', 'm1', 'm2', 'm4'])), ('r8', ch.of(['r1', 'r8', 'm1', 'm8']))])]
            if n in ('movd', 'vmovd', 'movq', 'vmovq') and pick[0] != 'x' and pick[1] != 'x':
                pick[1] = 'x'
            if n in ('movzx', 'movsx') and int(pick[0][1:]) <= int(pick[1][1:]):
                pick[0] = 'r8'
        # at most one memory operand
        ms = [i for i, k in enumerate(pick) if k[0] == 'm']
        for i in ms[1:]:
            c = [k for k in kinds[i] if k[0] not in 'mi' and (k[0] != 'r' or k[1:] == pick[ms[0]][1:])]
            if not c:
                return self.inst(ch)
            pick[i] = ch.of(c)
        if n in ('movsx', 'movzx') and int(pick[0][1:]) <= int(pick[1][1:]):
            return self.inst(ch)
        if n == 'vpsraq' or n == 'vmovss' and pick[1][0] != 'm':
            return self.inst(ch)   # not instructions
        has_reg = any(k[0] in 'rxy' for k in pick)
        ws = {k[1:] for k in pick if k[0] in 'rm'}
        a, b = [], []
        width = max([int(k[1:]) for k in pick if k[0] in 'rm'] or [4])
        for i, k in enumerate(pick):
            if k == 'cl':
                t = u = 'cl'
            elif k[0] == 'r':
                t = u = self.reg(ch, int(k[1:]))
                if n.startswith(('pextr', 'pinsr')) and k in ('r1', 'r2'):
                    u = R4[REGS[int(k[1:])].index(t)]
            elif k in 'xy':
                t = u = '%smm%d' % (k, ch.n(16))
            elif k[0] == 'm':
                w = int(k[1:])
                sized = not (has_reg and len(ws) == 1 and n not in MIXED and w <= 8 and ch.chance(1, 3)) or n in ('pinsrb', 'pextrb', 'pinsrw', 'pextrw') or n.startswith(('cvt', 'pextr', 'pinsr'))
                if n == 'cmpxchg16b':
                    w = 16
                elif n in ('cmpxchg8b',):
                    w = 8
                t, u = self.mem(ch, w, sized)
                if n in HALF:
                    u = u.replace('xmmword', 'qword')
                if n in ANYSIZE and n not in ('cmpxchg16b', 'cmpxchg8b'):
                    u = re.sub(r'^\w+ ptr ', 'byte ptr ' if n != 'lea' else '', u)
                if n == 'cmpxchg16b':
                    t = t.replace('xmmword', ch.of(['xmmword', 'qword']))
            elif k[0] == 'i':
                w = int(k[1:])
                if n in SHIFTS or i == 2 or i == 3 or n in ('int', 'prefetch') or n.startswith(('bt', 'ps', 'vps')):
                    v = ch.n(4) if n == 'prefetch' else 0x2e if n == 'int' else ch.of([0, 1, 3, 7, 31, 255, ch.n(256)])
                else:
                    v = self.imm(ch, min(width, 8 if n == 'mov' and pick[0][0] == 'r' else 4))
                    if not (n == 'mov' and pick[0][0] == 'r') and width == 8 and v > 0x7fffffff:
                        v -= 2 ** 32
                t = u = imm_text(ch, v)
            a.append(t)
            b.append(u)
        if n == 'prefetch':
            return 'prefetch %s, %s' % (a[0], a[1]), '%s %s' % (['prefetchnta', 'prefetcht0', 'prefetcht1', 'prefetcht2'][int(a[0], 0) & 3], b[1]), n
        if n in LOCKABLE and pick[0][0] == 'm' and (len(pick) < 2 or pick[1][0] != 'm') and ch.chance(1, 5):
            pre = 'lock '
        return '%s%s %s' % (pre, n, ', '.join(a)), '%s%s %s' % (pre, n, ', '.join(b)), n

    # -------------------------------------------------- judging
    def assemble(self, insts):
        """indices of the instructions the reference accepts, and its object"""
        p = self.px.path('r.s')
        o = self.px.path('r.obj')
        self.px.write('r.s', reference(insts))
        r = subprocess.run(['llvm-mc-18', '-filetype=obj', '-triple', 'x86_64-pc-windows-msvc', '-x86-asm-syntax=intel', '-mattr=+avx2,+aes,+sse4.2,+popcnt,+lzcnt,+cx16', '-o', o, p], capture_output=True, text=True)
        bad = {}
        for m in re.finditer(r':(\d+):\d+: error: (.*)', r.stderr):
            bad.setdefault((int(m.group(1)) - 2) // 3, m.group(2))
        if r.returncode and not bad:
            raise CheckError('llvm-mc: ' + r.stderr[:500])
        return bad

    def compile(self, insts):
        """({index: error}, abnormal)"""
        self.px.write('a.c', program(insts))
        for f, t in (('malloc.h', ''), ('stddef.h', 'typedef unsigned long long size_t; typedef unsigned short wchar_t;')):
            self.px.write(f, t)
        r = self.px.hlc(['/obj', '/no_debug', '/quiet', '/no_stdlib', '/I', '.', 'a.c', '/out:a.obj'])
        bad = {}
        base = DECLS.count('\n') + 1
        for m in re.finditer(r'a\.c\((\d+),\d+\): (.*)', r.text):
            if 'arning' not in m.group(2).split(':')[0] and int(m.group(1)) >= base:
                bad.setdefault(int(m.group(1)) - base, m.group(2))
        if r.abnormal and 'Unimplemented instruction' not in r.text:
            return {}, r.abnormal + '\n' + r.text[-500:]
        if r.status and not bad:
            return {}, 'status %d\n%s' % (r.status, r.text[-500:])
        return bad, None

    def judge(self, case):
        insts = list(case.insts)
        stat = {'rejected': 0, 'both': 0}
        rej, ab = self.compile(insts)
        for _ in range(len(insts) + 1):
            if ab or not rej:
                break
            stat['rejected'] += len(rej)
            insts = [t for i, t in enumerate(insts) if i not in rej]
            if not insts:
                return 'ok', '', ''
            rej, ab = self.compile(insts)
        if ab:
            if len(insts) == 1:
                return 'bad', 'hlc fails: ' + ab.split('\n')[0], insts[0][0] + '\n' + ab
            for t in insts:
                r, a = self.compile([t])
                if a:
                    return 'bad', 'hlc fails: ' + a.split('\n')[0], t[0] + '\n' + a
            return 'bad', 'hlc fails: ' + ab.split('\n')[0], ab
        bad = self.assemble(insts)
        if bad:
            i = min(bad)
            self.disagree = insts[i]
            # the instruction does not exist: what did hlc make of it?
            good = [t for j, t in enumerate(insts) if j not in bad]
            what = '; '.join(disassemble(self.px.path('a.obj'), len(insts))[i])
            return 'bad', 'hlc accepts what cannot be encoded', '%s\n  hlc:     %s\n  llvm-mc: %s' % (insts[i][0], what, bad[i])
        got = disassemble(self.px.path('a.obj'), len(insts))
        want = disassemble(self.px.path('r.obj'), len(insts))
        if ['(missing)'] in want:
            raise CheckError('reference disassembly: %s' % insts[want.index(['(missing)'])][1])
        for i, t in enumerate(insts):
            g = fold(got[i])
            w = want[i]
            if any(re.match(r'.*\bl[1248]$', x) or re.match(r'l[1248]$', x) for x in re.split(r', | ', t[0])):
                g = [re.sub(r'\[rbp( [-+] 0x[0-9a-f]+)?\]', '[local]', x) for x in g]
                w = [re.sub(r'\[rbp( [-+] 0x[0-9a-f]+)?\]', '[local]', x) for x in w]
            if g != w:
                return 'bad', 'encoded as something else', '%s\n  hlc:     %s\n  llvm-mc: %s' % (t[0], '; '.join(g), '; '.join(w))
        return 'ok', '', ''


# ------------------------------------------------------------------------------------------------ blocks that run
RUN_PRELUDE = PRELUDE + '''
typedef struct { u8 c; u64 q[3]; struct { u32 d; u16 w; s8 b; } in[2]; u64 *p; } AS;
static void h_zero(void *p, int n){ char *c = p; while (n--) *c++ = 0; }
'''
# scalar pieces of an AS: (text, width, offset)
PIECES = [('.c', 1, 0), ('.q[0]', 8, 8), ('.q[1]', 8, 16), ('.q[2]', 8, 24), ('.in[0].d', 4, 32), ('.in[0].w', 2, 36), ('.in[0].b', 1, 38), ('.in[1].d', 4, 40), ('.in[1].w', 2, 44), ('.in[1].b', 1, 46)]
CCS = ['o', 'no', 'c', 'nc', 'z', 'nz', 'be', 'nbe', 's', 'ns', 'p', 'np', 'l', 'nl', 'le', 'nle']
USE = ['rax', 'rcx', 'rdx', 'r8', 'r9', 'r10', 'r11', 'rsi', 'rdi']
INL = ['rax', 'rcx', 'rdx', 'r8', 'r9', 'r10', 'r11']
NUM = {n: i for i, n in enumerate(R8)}


class AsmRunWorker(DiffWorker):
    """blocks and inline_asm functions with operands of every storage, labels and jumps, mixed with C, against clang's assembler blocks"""
    prelude = RUN_PRELUDE
    clang_flags = ('-fasm-blocks', '-fms-extensions')
    max_log = 400

    def gen(self, ch):
        self.ch = ch
        self.lab = 0
        self.tags = set()
        self.inlines = []
        decls = ['static AS gs@; static u64 ga@[4]; static u32 gd@; static u16 gw@; static u8 gb@;']
        dh = []
        dc = []
        for k in range(ch.weighted([(3, 0), (3, 1), (2, 2), (1, 3)])):
            h, c = self.inline(k)
            dh.append(h)
            dc.append(c)
        self.scalars = [('gd@', 4, None), ('gw@', 2, None), ('gb@', 1, None), ('lq', 8, None), ('ld', 4, None), ('lw', 2, None), ('lb', 1, None)] + [('ga@[%d]' % i, 8, ('ga@', 8 * i)) for i in range(4)] + [('la[%d]' % i, 8, ('la', 8 * i)) for i in range(4)] + \
            [('gs@' + t, w, ('gs@', o)) for t, w, o in PIECES] + [('ls' + t, w, ('ls', o)) for t, w, o in PIECES]
        v = lambda: '0x%xull' % ch.of([0, 1, 2, 0x7f, 0x80, 0xff, 0x7fffffff, 0x80000000, 0xffffffff, 2**63 - 1, 2**63, 2**64 - 1, ch.bits(64), ch.bits(64), ch.bits(16)])
        init = 'u64 lq = %s; u32 ld = (u32)%s; u16 lw = (u16)%s; u8 lb = (u8)%s; u64 la[4] = {%s, %s, %s, %s}; AS ls; h_zero(&ls, sizeof(ls)); h_zero(&gs@, sizeof(gs@)); ls.q[1] = %s; ls.in[1].d = (u32)%s; gs@.q[2] = %s; gs@.in[0].w = (u16)%s; gd@ = (u32)%s; gw@ = 1; gb@ = 200; for (int i = 0; i < 4; i++) ga@[i] = %s + i; u64 *pl = la, *pg = ga@, *ps = ls.q, *pgs = gs@.q;' % tuple(v() for _ in range(14))
        body = [(init, init)]
        for _ in range(1 + ch.n(3)):
            if self.inlines and ch.chance(1, 2):
                t = self.cstat()
                body.append((t, t))
            else:
                body.append(self.block())
            if ch.chance(1, 4):
                t = self.cstat()
                body.append((t, t))
        end = 'h_log(lq); h_log(ld); h_log(lw); h_log(lb); h_mem(la, sizeof(la)); h_mem(ga@, sizeof(ga@)); h_log(gd@); h_log(gw@); h_log(gb@);' + ''.join(' h_log(%s%s);' % (s, t) for s in ('ls', 'gs@') for t, _, _ in PIECES)
        body.append((end, end))
        pre = ''.join(decls)
        return Case(pre + '\n' + ''.join(dc), '\n'.join(b[1] for b in body), True, self.tags, decls_hlc=pre + '\n' + ''.join(dh), body_hlc='\n'.join(b[0] for b in body))

    def cexpr(self, d=2):
        ch = self.ch
        k = ch.n(8)
        if d and self.inlines and k < 5:
            name, params = ch.of(self.inlines)
            return '%s(%s)' % (name, ', '.join(('%d' % ch.of([0, 1, 2, 5, 7, 12, 31])) if p == 'imm' else ch.of(['&la[%d]' % ch.n(4), '&ga@[%d]' % ch.n(4), 'la + (ld & 3)', '&ls.q[%d]' % ch.n(3)]) if p == 'ptr' else self.cexpr(d - 1) for p in params))
        if d and k == 5:
            return '(%s %s %s)' % (self.cexpr(d - 1), ch.of(['+', '-', '*', '^', '&', '|']), self.cexpr(d - 1))
        if d and k == 6:
            return '(%s)(%s)' % (ch.of(['u8', 'u32', 'u64', 's16']), self.cexpr(d - 1))
        if k == 7 and ch.chance(1, 2):
            return '%du' % ch.bits(9)
        t = ch.of(self.scalars)
        return t[0] if not ch.chance(1, 6) else 'la[ld & 3]'

    def cstat(self):
        ch = self.ch
        k = ch.n(5)
        # a call that writes through a pointer is sequenced on its own
        save, self.inlines = self.inlines, [i for i in self.inlines if 'ptr' not in i[1]]
        try:
            if k < 3:
                return '%s %s= %s;' % (ch.of(self.scalars)[0], ch.of(['', '+', '^', '-']), self.cexpr())
            if k == 3:
                return 'if ((%s) & 1) %s = %s;' % (self.cexpr(), ch.of(self.scalars)[0], self.cexpr(1))
        finally:
            self.inlines = save
        w = [i for i in self.inlines if 'ptr' in i[1]]
        if not w:
            return 'lq = lq * 3 + ld;'
        name, params = ch.of(w)
        self.inlines = []
        try:
            t = '%s = %s(%s);' % ('lq', name, ', '.join(('%d' % ch.n(32)) if p == 'imm' else ch.of(['&la[%d]' % ch.n(4), '&ga@[%d]' % ch.n(4), 'la + (ld & 3)', '&gs@.q[%d]' % ch.n(3)]) if p == 'ptr' else self.cexpr(1) for p in params))
        finally:
            self.inlines = save
        return t

    # ---- operands: (hlc text, clang text)
    def reg(self, w, avoid=()):
        r = self.ch.of([r for r in self.regs if r not in avoid])
        return REGS[w][NUM[r]]

    def memory(self, w):
        """an operand of the width in memory, or None"""
        ch = self.ch
        c = [s for s in self.mems if s[1] == w]
        if self.ptrs and w in (1, 2, 4, 8) and (ch.chance(1, 3) or not c):
            base, size = ch.of(self.ptrs)
            off = ch.n(size // w) * w
            if off and ch.chance(1, 6):
                t = '%s ptr [%s + 0x%x]' % (PTR[w], base, off)
            else:
                t = '%s ptr [%s]' % (PTR[w], base) if not off else '%s ptr [%s + %d]' % (PTR[w], base, off)
            self.tags.add('indirect')
            return t, t
        if not c:
            return None
        t, w, at = ch.of(c)
        if isinstance(at, str):
            return at, at
        self.tags.add('global' if t[0] == 'g' else 'local')
        return t, ('%s ptr %s' % (PTR[w], t)) if at is None else '%s ptr %s[%d]' % (PTR[w], at[0], at[1])

    def imm(self, w, bits=32):
        ch = self.ch
        v = ch.of([0, 1, 2, 5, 127, 128, 255, -1, -128, -129, 0x7fff, 0x8000, 0xffff, 0x7fffffff, -0x80000000, ch.bits(7), ch.bits(15), ch.bits(31), ch.bits(31)])
        lo, hi = -2 ** (8 * w - 1), 2 ** (8 * w) - 1
        if w == 8:
            hi = 2**31 - 1
        if not lo <= v <= hi:
            v &= 2 ** (8 * w - 1) - 1
            v &= 0x7fffffff
        return '%d' % v

    def ins(self, out, flags=False):
        """one instruction with defined results; flags: the last one left defined flags"""
        ch = self.ch
        w = ch.weighted([(4, 8), (4, 4), (1, 2), (1, 1)])
        k = ch.n(16)
        same = lambda t: (t, t)
        I = lambda fmt, *o: out.append((fmt % tuple(x[0] for x in o), fmt % tuple(x[1] for x in o)))
        if k < 5:
            op = ch.of(['add', 'sub', 'and', 'or', 'xor', 'mov', 'mov'])
            m = self.memory(w) if ch.chance(1, 2) else None
            if m and ch.chance(1, 3):
                I(op + ' %s, %s', m, same(self.imm(w) if ch.chance(1, 3) else self.reg(w)))
            else:
                I(op + ' %s, %s', same(self.reg(w)), m or same(self.imm(w) if ch.chance(1, 3) else self.reg(w)))
            return op != 'mov'
        if k == 5:
            s = ch.of([1, 2])
            d = ch.of([x for x in (2, 4, 8) if x > s])
            I(ch.of(['movzx', 'movsx']) + ' %s, %s', same(self.reg(d)), (self.memory(s) if ch.chance(1, 2) else None) or same(self.reg(s)))
        elif k == 6:
            I('xadd %s, %s', (self.memory(w) if ch.chance(1, 2) else None) or same(self.reg(w)), same(self.reg(w)))
        elif k == 7:
            op = ch.of(['shl', 'shr', 'sar', 'rol', 'ror'])
            n = same('%d' % ch.n(w * 8)) if ch.chance(2, 3) or 'rcx' not in self.regs else same('cl')
            I(op + ' %s, %s', (self.memory(w) if ch.chance(1, 4) else None) or same(self.reg(w)), n)
        elif k == 8:
            w = ch.of([2, 4, 8])
            if 'rax' in self.regs and all(p[0] != 'rdx' for p in self.ptrs) and 'rdx' in self.regs:
                I(ch.of(['mul', 'imul']) + ' %s', (self.memory(w) if ch.chance(1, 2) else None) or same(self.reg(w)))
                self.tags.add('multiply')
        elif k == 9:
            op = ch.of(['inc', 'dec', 'neg'])
            I(op + ' %s', (self.memory(w) if ch.chance(1, 3) else None) or same(self.reg(w)))
            return op in ('neg',)
        elif k == 10:
            I('bswap %s', same(self.reg(ch.of([4, 8]))))
        elif k == 11:
            a, b = same(self.reg(w)), (self.memory(w) if ch.chance(1, 3) else None) or same(self.imm(w) if ch.chance(1, 3) else self.reg(w))
            I('cmp %s, %s', a, b)
            return True
        elif k == 12:
            a, b = same(self.reg(w)), same(self.imm(w) if ch.chance(1, 2) else self.reg(w))
            I('cmp %s, %s', a, b)
            if ch.chance(1, 2):
                I('set' + ch.of(CCS) + ' %s', (self.memory(1) if ch.chance(1, 4) else None) or same(self.reg(1)))
            else:
                x = ch.of([2, 4, 8])
                I('cmov' + ch.of(CCS) + ' %s, %s', same(self.reg(x)), (self.memory(x) if ch.chance(1, 3) else None) or same(self.reg(x)))
            self.tags.add('condition')
            return True
        elif k == 13:
            I('xchg %s, %s', (self.memory(w) if ch.chance(1, 2) else None) or same(self.reg(w)), same(self.reg(w)))
        elif k == 14:
            m = self.memory(w)
            if m:
                I('mov %s, %s', m, same(self.reg(w)))
        else:
            p = [p for p in self.ptrs if p[1] >= 32]
            if p and len(self.regs) > 2:
                i = self.reg(4)
                r8 = R8[R4.index(i)]
                w = ch.of([1, 2, 4, 8])
                I('and %s, 3', same(i))
                t = same('%s ptr [%s + %d*%s]' % (PTR[w], ch.of(p)[0], ch.of([x for x in (1, 2, 4, 8) if x <= 8 and 3 * x + w <= 32]), r8))
                if ch.chance(1, 3):
                    I('mov %s, %s', t, same(self.reg(w)))
                else:
                    I(ch.of(['mov', 'add', 'xor']) + ' %s, %s', same(self.reg(w)), t)
                self.tags.add('indexed')
        return False

    def label(self):
        self.lab += 1
        return 'L%d_@' % self.lab if False else 'lab%d' % self.lab

    def sequence(self, out, n, depth=0, labels=True):
        ch = self.ch
        for _ in range(n):
            k = ch.n(12)
            if labels and k == 0 and depth < 2:
                # a forward branch
                l = self.label()
                a = self.reg(ch.of([4, 8]))
                out.append(('cmp %s, %s' % (a, '%d' % ch.of([0, 1, -1, 100])),) * 2)
                out[-1] = (out[-1][0],) * 2
                c = ch.of(CCS)
                out.append(('j%s .%s' % (c, l), 'j%s %s' % (c, l)))
                self.sequence(out, 1 + ch.n(3), depth + 1)
                out.append((l + ':', l + ':'))
                self.tags.add('branch')
            elif labels and k == 1 and depth < 2 and len(self.regs) > 4:
                l = self.label()
                r = ch.of([r for r in self.regs])
                self.regs.remove(r)
                w = ch.of([4, 8])
                c = REGS[w][NUM[r]]
                out.append(('mov %s, %d' % (c, 1 + ch.n(4)),) * 2)
                out.append((l + ':', l + ':'))
                self.sequence(out, 1 + ch.n(3), depth + 1)
                out.append(('dec ' + c,) * 2)
                out.append(('jnz .' + l, 'jnz ' + l))
                self.regs.append(r)
                self.tags.add('loop')
            else:
                self.ins(out)

    def block(self):
        ch = self.ch
        regs = list(USE)
        ch.shuffle(regs)
        out = []
        self.mems = self.scalars
        self.ptrs = []
        np = ch.n(3)
        for r in regs[:np]:
            t, size = ch.of([('la', 32), ('ga@', 32), ('ls.q', 24), ('gs@.q', 24)])
            v = {'la': 'pl', 'ga@': 'pg', 'ls.q': 'ps', 'gs@.q': 'pgs'}[t]
            out.append(('mov %s, %s' % (r, v), 'mov %s, qword ptr %s' % (r, v)))
            self.ptrs.append((r, size))
        self.regs = regs[np:np + 2 + ch.n(6)]
        for r in self.regs:
            if ch.chance(1, 3):
                v = ch.of([0, 1, -1, 2**31, 2**32 - 1, 2**63, 2**63 - 1, ch.bits(64), ch.bits(40), ch.bits(20)])
                out.append(('mov %s, %d' % (r, v if v < 2**63 else v - 2**64),) * 2)
            else:
                t, w, at = ch.of([s for s in self.scalars if s[1] == 8])
                out.append(('mov %s, %s' % (r, t), 'mov %s, qword ptr %s' % (r, t if at is None else '%s[%d]' % at)))
        self.sequence(out, 1 + ch.n(10))
        for r in self.regs:
            if ch.chance(2, 3):
                t, w, at = ch.of([s for s in self.scalars if s[1] == 8])
                out.append(('mov %s, %s' % (t, r), 'mov qword ptr %s, %s' % (t if at is None else '%s[%d]' % at, r)))
        self.tags.add('block')
        return '__asm__{\n' + '\n'.join('  ' + o[0] for o in out) + '\n}', '__asm {\n' + '\n'.join('  ' + o[1] for o in out) + '\n}'

    def inline(self, k):
        """an inline_asm function and the same as a function of clang"""
        ch = self.ch
        ps = [ch.weighted([(3, 'u64'), (3, 'u32'), (1, 'u16'), (1, 'u8'), (2, 's64'), (1, 's32'), (2, 'imm'), (1, 'ptr')]) for _ in range(1 + ch.n(3))]
        if all(p == 'imm' for p in ps):
            ps[0] = 'u64'
        if ps.count('ptr') > 1:
            ps = ['ptr' if p == 'ptr' and ps.index('ptr') == i else 'u64' if p == 'ptr' else p for i, p in enumerate(ps)]
        W = {'u64': 8, 's64': 8, 'u32': 4, 's32': 4, 'u16': 2, 'u8': 1}
        names = ['p%d' % i for i in range(len(ps))]
        out = []
        self.mems = [(n, W[p], n) for n, p in zip(names, ps) if p in W]
        self.ptrs = []
        regs = list(INL)
        ch.shuffle(regs)
        self.regs = regs[:1 + ch.n(4)]
        for r in self.regs:
            out.append(('mov %s, %d' % (r, ch.of([0, 1, -1, 77, 2**31])),) * 2)
        # the value of each parameter has to arrive whatever the registers in use are
        self.tags.add('inline_asm')
        ro = [m for m in self.mems]
        for n, p in zip(names, ps):
            r = ch.of(self.regs)
            if p == 'imm':
                out.append(('%s %s, %s' % (ch.of(['rol', 'shl']), r, n),) * 2)
            elif p == 'ptr':
                a = ('add %s, [%s]' % (r, n), 'mov rbx, %s\nadd %s, [rbx]' % (n, r))
                b = ('mov [%s], %s' % (n, r), 'mov rbx, %s\nmov [rbx], %s' % (n, r))
                out.append(a)
                if ch.chance(1, 2):
                    out.append(b)
            else:
                out.append(('%s %s, %s' % (ch.of(['add', 'xor', 'mov']), REGS[W[p]][NUM[r]], n),) * 2)
        # memory operands are only read
        self.read_only(out, ch.n(5))
        ret = ch.of(['u64', 'u32', 's32', 's64', 'u8', 'u16'])
        w = W.get(ret, 8)
        r = ch.of(self.regs)
        h = '\n'.join('  ' + o[0] for o in out) + '\n  return %s' % REGS[w][NUM[r]]
        cl = '\n'.join('  ' + o[1] for o in out) + '\n  mov %s, %s' % ('ret_', REGS[w][NUM[r]])
        name = 'ia%d_@' % k
        self.inlines.append((name, ps))
        sig = '%s %s(%s)' % (ret, name, ', '.join('%s %s' % ({'imm': 'int', 'ptr': 'u64 *'}.get(p, p), n) for n, p in zip(names, ps)))
        # clang: the count of a shift comes from cl
        csig = sig
        lines = []
        for o in out:
            m = re.match(r'(rol|shl) (\w+), (p\d)$', o[1])
            if m:
                c = R8[1]
                if m.group(2) == 'rcx':
                    lines.append('mov rbx, rcx\nmov ecx, %s\n%s rbx, cl\nmov rcx, rbx' % (m.group(3), m.group(1)))
                else:
                    lines.append('mov rbx, rcx\nmov ecx, %s\n%s %s, cl\nmov rcx, rbx' % (m.group(3), m.group(1), m.group(2)))
            else:
                lines.append(o[1])
        cl = '\n'.join(lines) + '\nmov ret_, %s' % REGS[w][NUM[r]]
        return '__declspec(inline_asm) %s{\n%s\n}\n' % (sig, h), 'static __attribute__((noinline)) %s{ %s ret_; __asm {\n%s\n}\nreturn ret_; }\n' % (csig, ret, cl)

    def read_only(self, out, n):
        ch = self.ch
        for _ in range(n):
            w = ch.of([8, 8, 4, 4, 2, 1])
            m = [x[0] for x in self.mems if x[1] == w]
            k = ch.n(6)
            src = ch.of(m) if m and ch.chance(1, 2) else self.reg(w)
            if k < 3:
                t = '%s %s, %s' % (ch.of(['add', 'sub', 'xor', 'and', 'or', 'mov']), self.reg(w), src)
            elif k == 3 and w > 1 and 'rax' in self.regs and 'rdx' in self.regs:
                t = '%s %s' % (ch.of(['mul', 'imul']), src)
            elif k == 4:
                t = '%s %s, %d' % (ch.of(['shl', 'shr', 'ror']), self.reg(w), ch.n(8 * w))
            else:
                c = self.reg(w)
                t = 'cmp %s, %s' % (c, src)
                out.append((t, t))
                t = 'set%s %s' % (ch.of(CCS), self.reg(1))
            out.append((t, t))
