"""C06: initialisers."""
from .core import *
from .diff import *
from .ctypes_gen import *
from .gen_int import bval, lit, TY

STR = ['a', 'b', 'Z', '0', ' ', '\\n', '\\0', '\\x41', '\\101', '\\\\', '\\"', '%']


class Init:
    def __init__(self, ch, static, pool):
        self.ch, self.static, self.pool = ch, static, pool       # pool: struct-typed variables (name, type) usable as expressions
        self.tags = set()
        self.unions = {}       # path -> member name/index chosen
        self.touched = set()
        self.items_left = 40
        self.conflict = False

    # ---- scalars
    def scalar(self, ty, bits=None):
        ch = self.ch
        if ty.kind == 'ptr':
            k = ch.n(8)
            if k < 2:
                return ch.of(['0', '(void *)0', '0'])
            if ty.ptype == 'fn':
                return ch.of(['fn@', '&fn@', '0'])
            if k == 2 and ty.ptype == 'char':
                self.tags.add('string address')
                return '"%s"' % ''.join(ch.of(STR[:6]) for _ in range(ch.r(1, 4)))
            self.tags.add('address constant')
            e = ch.of(['ga@', '&ga@[%d]' % ch.n(8), 'ga@ + %d' % ch.n(8), '%d + ga@' % ch.n(8), '&gs@.b', 'gs@.c', 'gs@.c + %d' % ch.n(4), '&gs@.c[%d]' % ch.n(4), '&ga@[7] - %d' % ch.n(7), '(char *)ga@ + %d' % ch.n(20), '&gs@', '&*ga@', '&(&gs@)->b', '(int *)&gs@.c[1]', '(void *)ga@',
                       '&gs@.d[1].e', '(char *)&gs@ + sizeof(int)'])
            return '(%s *)(%s)' % (ty.ptype, e)
        if ty.kind == 'float':
            k = ch.n(6)
            if k == 0 and not self.static:
                return 'rv@_%d' % ch.n(3)
            return ch.of(['1.5', '-2.25f', '3', '0', '1e10', '-7', '0.1', '1.0 / 3', '(float)0.1', "'a'", '2 * 3.5', '100u'])
        if ty.kind == 'enum':
            return '%d' % ch.n(100)
        t = TY[ty.name]
        k = ch.n(10)
        if k == 0 and not self.static:
            self.tags.add('run-time value')
            return ch.of(['rv@_0', 'rv@_1', 'rv@_2 + 1', '-rv@_0', 'rv@_1 * 3', '(rv@_0 ? 5 : 6)', 'fn@(%d)' % ch.n(9)])
        if k == 1:
            return ch.of(['sizeof(int) * 3', '1 + 2 * 3', '-1', '~0', '(char)300', "'x'", '5 > 3', '1 << 4', '(1 ? 7 : 8)', '!0', 'EC@_1', '(int)3.9', '7 / 2', '-7 % 4', '0x10u - 1'])
        if k == 2 and bits is None:
            return ch.of(['2.75', '1.5f', '100.0'] if not t.signed else ['2.75', '-1.5f', '100.0']) if ty.name != '_Bool' else ch.of(['2', '0.5', '256', '1'])
        if k == 3 and self.static and t.size == 8 and not bits:
            self.tags.add('address as integer')
            return '(%s)&ga@[%d]' % (ty.name, ch.n(8))
        v = bval(ch, t.size, t.signed)
        if bits:
            if ch.n(3):
                v &= (1 << bits) - 1
                if t.signed and v >> (bits - 1):
                    v -= 1 << bits
            else:
                self.tags.add('value that does not fit the bit-field')
        if v == -(1 << 63):
            return '(-9223372036854775807ll - 1)'
        if v >= (1 << 63):
            return '%dull' % v
        if v > 0x7fffffff or v < -0x80000000:
            return '%dll' % v
        return '%d' % v if v != -(1 << 31) else '(-2147483647 - 1)'

    def is_string(self, ty):
        return ty.kind == 'array' and ty.elem.kind == 'int' and (ty.elem.name in ('char', 'unsigned char', 'signed char') or ty.elem.name == 'unsigned short')

    def string(self, ty):
        ch = self.ch
        self.tags.add('string initialiser')
        n = ty.n
        pre = 'L' if ty.elem.name == 'unsigned short' else ''
        k = ch.n(n + 1) if n is not None else ch.n(7)
        parts = []
        # an octal or hex escape may not swallow the next character
        body = ''.join({'\\0': '\\000', '\\x41': '\\101'}.get(c, c) for c in (ch.of(STR) for _ in range(k)))
        if ch.n(4) == 0 and k > 1:
            cut = ch.n(k)
            return '%s"%s" %s"%s"' % (pre, body, pre, '') if True else ''
        return '%s"%s"' % (pre, body)

    # ---- aggregates
    def count(self, ty):
        if ty.kind == 'array':
            return ty.n if ty.n is not None else 6
        if ty.kind == 'union':
            return 1
        return len(ty.members)

    def sub(self, ty, idx, path, un=None):
        """(type, bits, path) of sub-object idx"""
        if ty.kind == 'array':
            return ty.elem, None, '%s[%d]' % (path, idx)
        m = ty.members[idx]
        return m.ty, m.bits, path if m.anon else path + '.' + m.name

    def choose(self, ty, idx, path, marks):
        """remember which member of a union is initialised"""
        if ty.kind == 'union':
            key = (path, id(ty))
            if self.unions.get(key, idx) != idx:
                self.conflict = True
                return False
            self.unions[key] = idx
        return True

    def value(self, ty, bits, path):
        """text that initialises the whole sub-object by itself (not elided)"""
        ch = self.ch
        self.items_left -= 1
        if ty.scalar:
            if ch.n(14) == 0:
                self.tags.add('braced scalar')
                return '{ %s }' % self.scalar(ty, bits)
            return self.scalar(ty, bits)
        if self.is_string(ty) and ch.n(3):
            s = self.string(ty)
            return '{ %s }' % s if ch.n(4) == 0 else s
        if not self.static and ty.kind in ('struct', 'union') and ch.n(5) == 0:
            c = [n for n, t in self.pool if t is ty]
            if c and path not in self.touched and not any(k[0].startswith(path) for k in self.unions):
                self.tags.add('aggregate expression')
                self.whole.add(path)
                return ch.of(c)
        return self.braced(ty, path)

    whole = None
    nested = False

    def strings_below(self, stack):
        def f(t):
            return self.is_string(t) or t.kind == 'array' and f(t.elem) or t.kind in ('struct', 'union') and any(f(m.ty) for m in t.members)
        return f(stack[0][0])

    def braced(self, ty, path):
        ch = self.ch
        out = []
        stack = [[ty, 0, path]]         # cursor of the next undesignated item
        maxidx = 0
        n = ch.r(0 if ch.n(6) == 0 else 1, min(8, max(1, self.count(ty) + 2)))
        if ty.kind == 'array' and ty.n is None and n == 0:
            n = 1
        for _ in range(n):
            if self.items_left <= 0 and out:
                break
            design = ch.n(5) == 0 or not stack
            if design:
                t, p = ty, path
                st = []
                txt = ''
                depth = 0
                ok = True
                while True:
                    if t.kind == 'array':
                        i = ch.n(self.count(t))
                        st.append([t, i, p])
                        txt += '[%s]' % ch.of(['%d' % i, '%d' % i, '%d + %d' % (i, 0), 'EC@_%d' % i if i < 3 else '%d' % i, "'\\x%x'" % i])
                        t, bits, p = self.sub(t, i, p)
                    else:
                        # named members, reaching into anonymous ones
                        cur, i = t, None
                        chain = []
                        while True:
                            i = ch.n(len(cur.members))
                            chain.append([cur, i, p])
                            m = cur.members[i]
                            if not m.anon:
                                break
                            cur = m.ty
                            self.tags.add('designated member of anonymous member')
                        for c2, i2, p2 in chain:
                            if not self.choose(c2, i2, p2, None):
                                ok = False
                        st += chain
                        txt += '.' + m.name
                        t, bits, p = m.ty, m.bits, p + '.' + m.name
                    depth += 1
                    if not ok or t.scalar or (ch.n(2) and depth >= 1) or depth > 3:
                        break
                if any(p.startswith(w) for w in self.whole):
                    continue
                if not ok:
                    continue
                if any(p.startswith(x) and p != x for x in self.touched):
                    # (clang 18 miscompiles the update of an element of an array initialised by a string)
                    c, q, via = ty, path, False
                    for c2, i2, p2 in st:
                        if self.is_string(c2) and p2 in self.touched:
                            via = True
                    if via:
                        continue
                self.tags.add('designator' if depth == 1 else 'nested designator')
                if p in self.touched:
                    self.tags.add('overriding')
                    # overriding an aggregate that holds a union is left out
                    if not t.scalar and any(k[0].startswith(p) for k in self.unions):
                        continue
                else:
                    if any(k[0].startswith(p) for k in self.unions):
                        continue
                if not t.scalar and any(x.startswith(p) for x in self.touched) and not self.is_string(t):
                    # (known finding: a later braced initialiser of an aggregate does not reset the members it does not mention)
                    continue
                v = self.string(t) if not t.scalar and any(x.startswith(p) for x in self.touched) else self.value(t, bits, p)
                self.touched.add(p)
                self.nested = depth > 1
                out.append('%s = %s' % (txt, v))
                stack = st
                self.advance(stack)
                continue
            # undesignated
            if self.nested and self.strings_below(stack):
                break       # (clang 18 gets the position of a string after a nested designator wrong)
            t, i, p = stack[-1]
            if not self.choose(t, i, p, None):
                break
            st_, bits, sp = self.sub(t, i, p)
            if sp != p and (sp in self.touched or any(x.startswith(sp) for x in self.touched)) and not st_.scalar and any(k[0].startswith(sp) for k in self.unions):
                break
            if any(sp.startswith(w) for w in self.whole):
                break
            if not st_.scalar and any(x.startswith(sp) for x in self.touched):
                break
            if not st_.scalar and not (self.is_string(st_) and ch.n(2)) and ch.n(3) == 0 and st_.kind in ('struct', 'union', 'array') and self.count(st_) > 0:
                # brace elision: step into it
                self.tags.add('brace elision')
                stack.append([st_, 0, sp])
                # descend to a scalar or something initialised as a whole
                # (a brace or an expression would belong to the outer aggregate)
                bad = False
                while True:
                    t, i, p = stack[-1]
                    if self.count(t) == 0 or not self.choose(t, i, p, None):
                        bad = True
                        break
                    st_, bits, sp = self.sub(t, i, p)
                    if st_.scalar or self.is_string(st_) and ch.n(2):
                        break
                    stack.append([st_, 0, sp])
                if self.conflict or bad:
                    self.conflict = True
                    break
                if any(sp.startswith(w) for w in self.whole):
                    break
                if not st_.scalar:
                    v = self.string(st_)
                else:
                    v = self.scalar(st_, bits)
                self.items_left -= 1
            else:
                v = self.value(st_, bits, sp)
            self.touched.add(sp)
            out.append(v)
            self.advance(stack)
        if not out and ty.kind == 'union':
            self.choose(ty, 0, path, None)
        t = ', '.join(out)
        if not out:
            self.tags.add('empty braces')
            return '{ 0 }' if ch.n(2) and self.first_scalar(ty) and not (ty.kind == 'union') else '{}'
        return '{ %s%s }' % (t, ',' if ch.n(5) == 0 else '')

    def first_scalar(self, ty):
        while not ty.scalar:
            if ty.kind == 'array':
                ty = ty.elem
            elif ty.kind == 'union':
                return False
            else:
                ty = ty.members[0].ty
        return ty.kind != 'enum'

    def advance(self, stack):
        while stack:
            stack[-1][1] += 1
            t, i, p = stack[-1]
            if t.kind == 'union' or i >= self.count(t):
                stack.pop()
            else:
                return


def init_leaves(ty, path, unions, out=None, bits=None):
    if out is None:
        out = []
    if ty.scalar:
        out.append((path, ty, bits))
    elif ty.kind == 'array':
        for i in range(ty.n if ty.n is not None else 0):
            init_leaves(ty.elem, '%s[%d]' % (path, i), unions, out)
    else:
        ms = ty.members
        if ty.kind == 'union' and (path, id(ty)) in unions:
            ms = [ty.members[unions[(path, id(ty))]]]
        for m in ms:
            init_leaves(m.ty, path if m.anon else path + '.' + m.name, unions, out, m.bits)
    return out


def self_log(p, t, b, static):
    if t.kind == 'ptr':
        return 'h_log(pk@((void *)%s));' % p
    if t.kind == 'int' and TY[t.name].size == 8 and not b and static:
        # it may hold an address
        return 'h_log((u64)%s - (u64)ga@ < 100 ? (u64)%s - (u64)ga@ : (u64)%s);' % (p, p, p)
    return log_leaf(p, t)


def gen_init(ch):
    g = TypeGen(ch, 'S', maxarr=4, pack=0, align=0, fnptr=1)
    tags = set()
    pre = ['static int ga@[8] = {1, 2, 3, 4, 5, 6, 7, 8}; static struct { int a; int b; short c[4]; struct { char x; int e; } d[2]; } gs@; enum { EC@_0, EC@_1, EC@_2 };\n'
           'static int fn@(int x){ return x + 3; }\nstatic int rv@_0 = 17, rv@_1 = -5, rv@_2 = 1000;\n'
           'static u64 pk@(void *p){ char *c = p; if (!p) return 0; if (c >= (char *)ga@ && c < (char *)(ga@ + 8)) return 100 + (c - (char *)ga@); if (c >= (char *)&gs@ && c < (char *)(&gs@ + 1)) return 500 + (c - (char *)&gs@); if (p == (void *)fn@) return 50; return 1000 + *(unsigned char *)c; }\n'
           'static void dirty@(void){ volatile char x[600]; for (int i = 0; i < 600; i++) x[i] = 0x5a + i; }\n']
    body = ['dirty@();']
    pool = []
    nitems = 0
    for i in range(ch.r(1, 3)):
        kind = ch.n(8)
        ty = g.aggregate(ch.of([1, 2, 2, 3])) if ch.n(4) else Ty('array', elem=g.type(2), n=ch.r(1, 5))
        unsized = False
        if ch.n(5) == 0:
            ty = Ty('array', elem=ty if ch.n(2) else g.scalar(), n=None)
            unsized = True
        static = kind <= 3
        I = Init(ch, static, pool)
        I.whole = set()
        nm = 'x%d' % i if kind > 1 else 'g@_%d' % i
        if unsized and I.is_string(ty) and ch.n(2):
            txt = I.string(ty)
            if ch.n(4) == 0:
                txt = '{ %s }' % txt
        else:
            txt = I.braced(ty, nm)
        if I.conflict:
            tags.add('dropped: union conflict')
            continue
        tags |= I.tags
        nitems += len(I.touched)
        d = ty.decl(nm)
        if kind <= 1:
            g.decls.append('%s%s = %s;\n' % (ch.of(['static ', '']), d, txt))
            tags.add('global')
        elif kind <= 3:
            body.append('static %s = %s;' % (d, txt))
            tags.add('static local')
        elif kind <= 5 or unsized:
            body.append('%s = %s;' % (d, txt))
            tags.add('automatic')
        elif kind == 6 and ty.kind != 'array':
            body.append('%s; %s = (%s)%s;' % (d, nm, ty.name, txt if txt.startswith('{') else '{%s}' % txt))
            tags.add('compound literal')
        else:
            tn = ty.decl('').strip() if ty.kind == 'array' else ty.name
            if ty.kind == 'array':
                tn = Ty('array', elem=ty.elem, n=ty.n).decl('')
                body.append('%s = %s;' % (d, txt))
            else:
                body.append('%s = *&(%s)%s;' % (d, tn, txt))
                tags.add('compound literal')
        if unsized:
            body.append('h_log(sizeof(%s));' % nm)
            for p, t, b in init_leaves(Ty('array', elem=ty.elem, n=1), nm, I.unions)[:10]:
                body.append(self_log(p, t, b, static))
            if ty.elem.scalar and ty.elem.kind == 'int' and TY[ty.elem.name].size < 8:
                body.append('for (int i = 0; i < sizeof(%s) / sizeof(%s[0]); i++) h_log((u64)%s[i] - (u64)ga@ < 100 ? (u64)%s[i] - (u64)ga@ : (u64)%s[i]);' % (nm, nm, nm, nm, nm))
        else:
            lv = init_leaves(ty, nm, I.unions)
            if len(lv) > 40:
                step = len(lv) // 40 + 1
                lv = lv[::step]
            for p, t, b in lv:
                body.append(self_log(p, t, b, static))
            if ty.kind in ('struct', 'union') and kind > 3 and not I.unions:
                pool.append((nm, ty))
    return Case(pre[0] + ''.join(g.decls), ' '.join(body), nontrivial=nitems >= 3, tags=sorted(tags | g.tags))


# files for #embed
EMBED = [b'', b'x', b'hello', bytes([0, 255, 128, 127, 1]), b'line\r\nline\n\x00\x1a"end', bytes((i * 7 + 3) & 255 for i in range(300))]


def gen_embed(ch):
    """arrays initialised (in part) by #embed; the reference gets the numbers"""
    tags = {'#embed'}
    dh, dr, bh, br = [], [], ['dirty@();'], ['dirty@();']
    d0 = 'static void dirty@(void){ volatile char x[600]; for (int i = 0; i < 600; i++) x[i] = 0x5a + i; }\n'
    for i in range(ch.r(1, 3)):
        el = ch.of(['char', 'unsigned char', 'signed char'])
        items, ref, n, top = [], [], 0, 0
        for _ in range(ch.r(1, 3)):
            k = ch.n(5)
            if k == 0:
                v = ch.n(100)
                items.append('%d' % v)
                ref.append('%d' % v)
                n += 1
            else:
                f = ch.n(len(EMBED))
                b = EMBED[f]
                e = '"e%d.bin"' % f
                want = ['%d' % (x - 256 if x > 127 and el != 'unsigned char' else x) for x in b]
                at = ''
                if ch.n(5) == 0:
                    n = ch.n(10)
                    at = '[%d] = ' % n
                    tags.add('#embed after a designator')
                for par in ch.of([[], [], [], ['prefix'], ['suffix'], ['prefix', 'suffix'], ['suffix', 'prefix']]):
                    x = [ch.n(100) for _ in range(ch.r(1, 2))]
                    us = ch.of(['', '', '__'])
                    sp = ch.of([' ', ' ', '  ', ' /* c */ '])
                    l = ', '.join('%d' % v for v in x)
                    e += sp + us + par + us + ch.of(['', '', ' ']) + '(' + (l + ',' if par == 'prefix' else ', ' + l) + ')'
                    if b:
                        want = ['%d' % v for v in x] + want if par == 'prefix' else want + ['%d' % v for v in x]
                    tags.add('#embed ' + par)
                if not b:
                    x = [ch.n(100) for _ in range(ch.r(1, 3))]
                    e += ' if_empty(' + ', '.join('%d' % v for v in x) + ')'
                    want = ['%d' % v for v in x]
                    tags.add('#embed if_empty')
                items.append('%s\n#embed %s\n' % (at, e))
                ref.append(at + ', '.join(want))
                n += len(want)
            top = max(top, n)
        tail = ch.of(['', '', ','])
        ih, ir = '{ ' + ', '.join(items) + tail + ' }', '{ ' + ', '.join(ref) + tail + ' }'
        where = ch.n(6)
        size = ch.of(['', '%d' % top, '%d' % (top + ch.n(30))])
        nm = ('g@_%d' if where < 2 else 'x%d') % i
        if where in (1, 4):
            d = 'struct { int a; %s b[%s]; short c; } %s = {17, %%s, 18};' % (el, size or top, nm)
            m = nm + '.b'
            tags.add('#embed in a member')
        else:
            d = '%s %s[%s] = %%s;' % (el, nm, size)
            m = nm
        if where < 2:
            dh.append(d % ih + '\n')
            dr.append(d % ir + '\n')
        else:
            st = 'static ' if where == 2 else ''
            bh.append(st + d % ih)
            br.append(st + d % ir)
        tags.add('#embed ' + ('global' if where < 2 else 'static local' if where == 2 else 'automatic'))
        o = 'h_log(sizeof(%s)); h_mem(%s, sizeof(%s));' % (m, m, m)
        if m != nm:
            o += ' h_log(%s.a); h_log(%s.c);' % (nm, nm)
        bh.append(o)
        br.append(o)
    return Case(d0 + ''.join(dr), ' '.join(br), nontrivial=True, tags=sorted(tags), decls_hlc=d0 + ''.join(dh), body_hlc=' '.join(bh))


class InitWorker(DiffWorker):
    max_log = 300
    clang_opt = '-O0'

    def __init__(self, *a):
        super().__init__(*a)
        for i, b in enumerate(EMBED):
            self.px.write('e%d.bin' % i, b)

    def gen(self, ch):
        return gen_embed(ch) if ch.n(12) == 11 else gen_init(ch)

    def files(self, cases):
        f = super().files(cases)
        if '#embed' in f['program.c']:
            f.update({'e%d.bin' % i: b for i, b in enumerate(EMBED)})
        return f
