"""C03: statements and control flow."""
from .core import *
from .diff import *
from .gen_int import TYPES, TY, bval, lit, INT, UINT, ULL

STYPES = [t for t in TYPES if t.name != '_Bool']


class StmtGen:
    def __init__(self, ch, fname, ret, callees, depth0):
        self.ch, self.fname, self.ret, self.callees = ch, fname, ret, callees
        self.tr = 0              # trace points
        self.labels = []         # label names to place
        self.placed = []
        self.wanted = []
        self.nlab = 0
        self.uid = 0
        self.tags = set()
        self.switches = []       # innermost list of case values used and type
        self.left = 60           # statements left
        self.has_static = False

    def L(self, v):
        self.tr += 1
        return 'L@(%d, %s)' % (self.tr, v)

    # ---- expressions over the variables in scope; all arithmetic is small and cannot overflow
    def var(self, scope):
        return self.ch.of(scope)[0]

    def expr(self, scope, d=2):
        ch = self.ch
        k = ch.n(12)
        if d == 0 or k < 4:
            return self.var(scope) if ch.n(3) else str(ch.of([0, 1, 2, 3, 5, 7, 12, 100, -1, -4]))
        if k < 7:
            return '(%s %s %s)' % (self.expr(scope, d - 1), ch.of(['+', '-', '^', '&', '|']), self.expr(scope, d - 1))
        if k == 7:
            return '(%s %s %s)' % (self.expr(scope, d - 1), ch.of(['<', '>', '==', '!=', '<=', '>=']), self.expr(scope, d - 1))
        if k == 8:
            self.tags.add('short circuit')
            return '(%s %s %s)' % (self.L(self.expr(scope, d - 1)), ch.of(['&&', '||']), self.L(self.expr(scope, d - 1)))
        if k == 9:
            return '(%s ? %s : %s)' % (self.expr(scope, d - 1), self.L(self.expr(scope, d - 1)), self.L(self.expr(scope, d - 1)))
        if k == 10:
            return '(%s, %s)' % (self.L(self.expr(scope, d - 1)), self.expr(scope, d - 1))
        if self.callees:
            self.tags.add('call')
            f = ch.of(self.callees)
            return '%s(%s)' % (f, ', '.join(['d - 1'] + [self.expr(scope, 0) for _ in range(2)])) if 'd' else ''
        return self.L(self.expr(scope, d - 1))

    def cond(self, scope):
        ch = self.ch
        k = ch.n(10)
        if k < 5:
            e = self.expr(scope, 2)
            return ch.of(['%s', '!(%s)', '(%s) > 2', '(%s) & 1', '((%s) & 3) == 1']) % e
        if k == 5:
            return ch.of(['0', '1', '!0', '2 > 1', '0.0', '1 == 2', "'a'", '!1'])
        if k == 6:
            return '%s && %s' % (self.L(self.expr(scope, 1)), self.L(self.expr(scope, 1)))
        if k == 7:
            return '%s || (%s && %s)' % (self.L(self.expr(scope, 1)), self.L(self.expr(scope, 0)), self.L(self.expr(scope, 0)))
        if k == 8:
            return '(double)%s %s 2.5' % (self.var(scope), ch.of(['<', '>', '!=']))
        return ch.of(['p@_ == 0', 'p@_', '!p@_', '&p@_ != 0', '(%s) %% 3' % self.expr(scope, 1), '(unsigned char)(%s)' % self.expr(scope, 1), '(long long)(%s) << 33' % self.expr(scope, 1), '(float)(%s)' % self.expr(scope, 0)])

    def reinit(self, scope, base):
        """assignments after a label, for variables whose initialisation may have been jumped over"""
        return ' '.join('%s = %d;' % (n, self.ch.n(9)) for n, w in scope[base:] if w)

    def block(self, scope, d, loop, sw, base):
        """scope: list of (name, writable); base: index of the first variable of this function's nested scopes"""
        ch = self.ch
        scope = list(scope)
        out = []
        n = ch.r(1, 4)
        for _ in range(n):
            if self.left <= 0:
                break
            self.left -= 1
            out.append(self.stmt(scope, d, loop, sw, base))
        return ' '.join(out) if out else ';'

    def body(self, scope, d, loop, sw, base):
        """a sub-statement"""
        ch = self.ch
        if ch.n(5) == 0:
            self.left -= 1
            s = self.stmt(list(scope), d, loop, sw, base, nodecl=True)
            return s
        return '{ %s }' % self.block(scope, d, loop, sw, base)

    def label(self, scope, base, nodecl):
        ch = self.ch
        if nodecl:
            return None
        if self.wanted and ch.n(2):
            l = self.wanted.pop(ch.n(len(self.wanted)))
        else:
            self.nlab += 1
            l = 'l%d' % self.nlab
        self.placed.append(l)
        self.tags.add('label')
        return '%s: ; %s %s' % (l, self.reinit(scope, base), 'h_log(%d);' % (1000 + self.nlab))

    def goto(self):
        ch = self.ch
        self.tags.add('goto')
        c = self.placed + self.wanted
        if c and ch.n(2):
            l = ch.of(c)
        else:
            self.nlab += 1
            l = 'l%d' % self.nlab
            self.wanted.append(l)
        return 'if (fuel@-- > 0) goto %s;' % l

    def stmt(self, scope, d, loop, sw, base, nodecl=False):
        ch = self.ch
        k = ch.n(30) if d > 0 else ch.n(8)
        w = [n for n, x in scope if x]
        if k == 0:
            self.tr += 1
            return 'h_log(%d);' % self.tr
        if k <= 2 and w:
            v = ch.of(w)
            return ch.of(['%s = %s;', '%s = %s;', '%s += %s;', '%s ^= %s;', '%s -= %s;']) % (v, '(' + self.expr(scope) + ') & 0xff')
        if k == 3 and w:
            return ch.of(['%s++;', '--%s;', '%s--;']) % ch.of(w)
        if k == 4:
            return 'h_log(%s);' % self.expr(scope)
        if k == 5:
            if ch.n(3) == 0:
                self.tags.add('return')
                return 'if (%s) return %s;' % (self.cond(scope), self.expr(scope))
            if loop and ch.n(2):
                self.tags.add('continue')
                return 'if (%s) continue;' % self.cond(scope)
            if loop or sw:
                self.tags.add('break')
                return ch.of(['break;', 'if (%s) break;' % self.cond(scope)])
            return ';'
        if k == 6:
            return self.goto()
        if k == 7:
            return self.label(scope, base, nodecl) or ';'
        if k < 13:
            c = self.cond(scope)
            a = self.body(scope, d - 1, loop, sw, base)
            if ch.n(2):
                b = self.body(scope, d - 1, loop, sw, base)
                if not a.startswith('{'):
                    a = '{ %s }' % a if ch.n(3) else 'if (%s) { %s } else h_log(%d);' % (self.cond(scope), a, 500)
                return 'if (%s) %s else %s' % (c, a, b)
            return 'if (%s) %s' % (c, a)
        if k < 15:
            self.tags.add('while')
            return 'while (%s) %s' % (ch.of(['fuel@-- > 0 && (%s)', '(%s) && fuel@-- > 0']) % self.cond(scope), self.body(scope, d - 1, True, False, base))
        if k < 17:
            self.tags.add('do')
            return 'do %s while (%s);' % (self.body(scope, d - 1, True, False, base), 'fuel@-- > 0 && (%s)' % self.cond(scope))
        if k < 20:
            self.tags.add('for')
            self.uid += 1
            form = ch.n(4)
            if form == 0:
                i = 'i%d' % self.uid
                return 'for (int %s = %s; %s < %d && fuel@-- > 0; %s++) %s' % (i, self.L(ch.n(3)), i, ch.n(6), i, self.body(scope + [(i, True)], d - 1, True, False, base))
            if form == 1 and w:
                v = ch.of(w)
                return 'for (%s = %s; fuel@-- > 0 && (%s); %s) %s' % (v, self.expr(scope, 1), self.cond(scope), self.L(self.expr(scope, 1)), self.body(scope, d - 1, True, False, base))
            if form == 2:
                return 'for (; fuel@-- > 0;) %s' % self.body(scope, d - 1, True, False, base)
            return 'for (;;) { if (fuel@-- <= 0) break; %s }' % self.block(scope, d - 1, True, False, base)
        if k < 25:
            return self.switch(scope, d, loop, base)
        if k < 28 and not nodecl:
            self.uid += 1
            f = ch.n(4)
            if f == 0:
                # shadowing of an outer variable
                # only function-level variables that are not hidden yet: reinit could not reach a hidden one
                v = ch.of([x for x, _ in scope[:base] if all(x != y for y, _ in scope[base:])] or ['zz%d' % self.uid])
                self.tags.add('shadowing')
                inner = list(scope)
                # the shadowing variable is writable and needs the treatment after labels
                return '{ int %s = %d; %s h_log(%s); }' % (v, ch.n(50), self.block(inner + [(v, True)], d - 1, loop, sw, base), v)
            if f == 1:
                s = 's%d' % self.uid
                self.tags.add('static local')
                return '{ static int %s%s; %s++; h_log(%s); %s = %s & 0xff; %s }' % (s, ch.of(['', ' = 5', ' = -3', ' = sizeof(int)']), s, s, s, s, self.block(scope, d - 1, loop, sw, base))
            t = ch.of(STYPES)
            v = 'b%d' % self.uid
            inner = scope + [(v, True)]
            return '{ %s %s = %s; %s }' % (t.name, v, '(' + self.expr(scope) + ') & 0x7f', self.block(inner, d - 1, loop, sw, base))
        if k == 28:
            return '{ %s }' % self.block(scope, d - 1, loop, sw, base)
        return 'if (0) { %s %s } else h_log(7);' % (self.label(scope, base, False), self.block(scope, d - 1, loop, sw, base))

    def switch(self, scope, d, loop, base):
        ch = self.ch
        self.tags.add('switch')
        style = ch.n(7)
        t = ch.of(STYPES + [INT] * 6 if style not in (2, 3, 6) else STYPES + [INT, UINT] + [TY['long long'], ULL] * 4)
        n = ch.r(0, 6) if style != 4 else ch.r(8, 30)
        vals = []
        ext = TY['int'] if t.rank < 3 else t
        for i in range(n):
            if style in (0, 4):
                v = i + ch.n(2)
            elif style == 1:
                v = ch.n(12) - 4
            elif style == 2:
                v = bval(ch, ext.size, ext.signed)
            elif style == 3:
                v = bval(ch, t.size, t.signed)
            elif style == 6:
                # labels on both sides of the ranges of the immediate operands
                v = ch.of([0x7fffffff, 0x80000000, 0xffffffff, 0x7f, 0x80, 0xff, 0x100000000, -0x80000000, -0x80, 0xffffffff80000000, 0xff000000]) + ch.n(4) - 2
            else:
                v = i * ch.of([1, 2, 100])
            # the value as converted to the promoted type
            v &= (1 << ext.size * 8) - 1
            if ext.signed and v >> (ext.size * 8 - 1):
                v -= 1 << ext.size * 8
            if v not in vals:
                vals.append(v)
        dense = style in (0, 1, 4, 5)
        if dense or not vals:
            ctl = '(%s)(%s)' % (t.name, ch.of(['%s', '%s', '(%s) & 7', '((%s) & 15) - 4']) % self.expr(scope))
        else:
            # pick one of the values or a neighbour
            ctl = '(%s)(%s)' % (t.name, 'sel@(%s, %s)' % (self.expr(scope, 1), ', '.join(lit(x, TY['long long']) for x in (vals + [vals[0] ^ 1, 0, 77, 1, 2, 3])[:6])) )
        parts = ['c%d' % i for i in range(len(vals))]
        deflt = ch.n(len(vals) + 2) - 1      # -1: none
        out = []
        i = 0
        order = ch.shuffle(vals)
        items = [('case', v) for v in order]
        if deflt >= 0:
            items.insert(min(deflt, len(items)), ('default', None))
        if ch.n(8) == 0:
            # statements before the first label are unreachable but for gotos
            out.append('h_log(%d);' % ch.n(99))
        for kind, v in items:
            lab = 'default:' if v is None and kind == 'default' else 'case %s:' % self.case_const(v, ext)
            out.append(lab + ' ;' if ch.n(3) == 0 else lab)
            r = ch.n(8)
            if r == 0:
                out.append(';' if out[-1].endswith(':') and ch.n(2) else '')     # stacked labels
                continue
            rein = self.reinit(scope, base)
            if r == 1 and d > 1:
                # further labels of the switch inside a nested loop or block come from the recursion of 'nested'
                self.tags.add('case in nested statement')
                self.uid += 1
                x = max([vv for vv in vals] + [0]) + 1 + self.uid
                x = x if x < 100 else 99
                if x not in vals and x <= (1 << (ext.size * 8 - 1)) - 1:
                    vals.append(x)
                    out.append('%s { while (fuel@-- > 0) { %s case %d: %s %s } }' % (rein, self.block(scope, d - 1, True, False, base), x, self.reinit(scope, base), self.block(scope, d - 1, True, False, base)))
                    continue
            out.append('%s %s' % (rein, self.block(scope, d - 1, loop, True, base) if ch.n(3) else 'h_log(%d);' % ch.n(99)))
            if ch.n(5):
                out.append('break;')
        if not items:
            pass
        elif out and out[-1].endswith(':'):
            out.append(';')
        if out and out[-1] == '' :
            out.append(';')
        return 'switch (%s) { %s }' % (self.L(ctl) if ch.n(2) and t.rank <= 3 else ctl, ' '.join(out))

    def case_const(self, v, ext):
        ch = self.ch
        k = ch.n(6)
        if k == 0 and 32 < v < 127 and chr(v) not in "'\\":
            return "'%s'" % chr(v)
        if k == 1 and -1000 < v < 1000:
            x = ch.n(20)
            return '%d + %d' % (v - x, x) if v - x >= 0 else '(%d) + %d' % (v - x, x)
        if k == 2 and 0 <= v < (1 << 31):
            return '0x%x' % v
        if k == 3 and 0 <= v < 6:
            return 'E@_%d' % v
        return lit(v, ext)


def switch_probe(ch, k):
    """a function of one switch, called with every label, the neighbours of the labels, and values that agree with a label in their low bits"""
    t = ch.of([TY['long long'], ULL, UINT, INT] + STYPES)
    ext = TY['int'] if t.rank < 3 else t
    vals = []
    base = bval(ch, t.size, t.signed)
    for i in range(ch.of([1, 2, 3, 5, 8, 14, 30])):
        j = ch.n(4)
        v = bval(ch, t.size, t.signed) if j == 0 else base + i * ch.of([1, 1, 2, 3]) if j == 1 else ch.of([0x7fffffff, 0x80000000, 0xffffffff, 0x7f, 0x80, 0xff, 0x100000000, -0x80000000, -0x80, 0xffffffff80000000, 0xff000000]) + ch.n(4) - 2 if j == 2 else i
        v &= (1 << t.size * 8) - 1
        if t.signed and v >> (t.size * 8 - 1):
            v -= 1 << t.size * 8
        if v not in vals:
            vals.append(v)
    labs = []
    for i, v in enumerate(vals):
        labs.append('case %s: %s' % (lit(v, ext), ch.of(['return %d;' % (i + 1), 'return %d;' % (i + 1), 'r += %d; break;' % (i + 1), 'r += %d;' % (i + 1), ''])))
    if ch.n(3):
        labs.insert(ch.n(len(labs) + 1), 'default: r += 100;' + ch.of(['', ' break;']))
    ins = []
    for v in vals:
        for x in [v, v + 1, v - 1] + ([v ^ (1 << ch.n(t.size * 8))] if ch.n(2) else []) + ([v & 0xffffffff, v | 0xffffffff00000000, v ^ (1 << 32)] if t.size == 8 else []):
            x &= (1 << t.size * 8) - 1
            if t.signed and x >> (t.size * 8 - 1):
                x -= 1 << t.size * 8
            if x not in ins:
                ins.append(x)
    ctl = ch.of(['x', 'x', 'sg@_%d' % k, '*px', 'x + 0', 'id@_%d(x)' % k])
    d = 'static %s sg@_%d; static %s id@_%d(%s x){ return x; } static %s si@_%d[] = {%s};\n' % (t.name, k, t.name, k, t.name, t.name, k, ', '.join(lit(x, t) for x in ins))
    d += 'static int sp@_%d(%s x){ int r = 0; %s *px = &x; sg@_%d = x; switch (%s) { %s ; } return r + 1000; }\n' % (k, t.name, t.name, k, ctl, ' '.join(labs))
    return d, 'for (int q = 0; q < %d; q++) h_log(sp@_%d(si@_%d[q]));' % (len(ins), k, k)


def gen_stmt(ch):
    decls = ['static int fuel@; static void *p@_; enum { E@_0, E@_1, E@_2, E@_3, E@_4, E@_5 };\n'
             'static int L@(int n, int v){ h_log(0x10000 + n); return v; }\n'
             'static long long sel@(int i, long long a, long long b, long long c, long long d, long long e, long long f){ i &= 7; return i == 0 ? a : i == 1 ? b : i == 2 ? c : i == 3 ? d : i == 4 ? e : f; }\n']
    nf = ch.r(1, 3)
    fns = []
    tags = set()
    n = 0
    for i in range(nf):
        name = 'f@_%d' % i
        g = StmtGen(ch, name, INT, fns + ([name] if ch.n(3) == 0 else []), 0)
        if name in g.callees:
            tags.add('recursion')
        nv = ch.r(1, 3)
        g.left = ch.of([8, 20, 40])
        pts = [ch.of(STYPES) for _ in range(2)]
        scope = [('a', True), ('b', True)] + [('v%d' % j, True) for j in range(nv)]
        base = len(scope)
        b = g.block(scope, ch.of([2, 3, 4]), False, False, base)
        b += ' ' + g.block(scope, 3, False, False, base)
        for l in g.wanted:
            b += ' %s: ;' % l
            if ch.n(2):
                g.tr += 1
                b += ' h_log(%d);' % g.tr
        loc = ' '.join('%s v%d = %s;' % (ch.of(STYPES).name, j, ch.of(['a', 'b', '1', 'a + b', '7'])) for j in range(nv))
        decls.append('static int %s(int d, %s a, %s b){ %s if (d < 0) return 9; %s return %s; }\n' % (name, pts[0].name, pts[1].name, loc, b, g.expr(scope)))
        fns.append(name)
        tags |= g.tags
        n += b.count(';')
    body = []
    for i in range(ch.r(2, 6)):
        if ch.n(4) == 1:
            d, b = switch_probe(ch, i)
            decls.append(d)
            body.append(b)
            tags.add('switch table')
        body.append('fuel@ = %d; p@_ = %s; h_log(%s(2, %d, %d));' % (ch.of([10, 30, 60]), ch.of(['0', '&fuel@']), ch.of(fns), ch.n(8) - 2, ch.n(100)))
    return Case(''.join(decls), ' '.join(body), nontrivial=n > 12 and len(tags) >= 3, tags=sorted(tags))


class StmtWorker(DiffWorker):
    max_log = 300

    def gen(self, ch):
        return gen_stmt(ch)
