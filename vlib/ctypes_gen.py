"""Random C types, shared by the generators for layout, initialisers, aggregates and calls."""
from .gen_int import TYPES, TY, bval, lit, INT

SCAL = [t.name for t in TYPES] + ['float', 'double']
BITF = ['int', 'unsigned int', 'long long', 'unsigned long long', 'unsigned char', 'signed char', 'short', 'unsigned short', '_Bool', 'char', 'long', 'unsigned long', '__int64']
BITS = {'int': 32, 'unsigned int': 32, 'long': 32, 'unsigned long': 32, 'long long': 64, '__int64': 64, 'unsigned long long': 64, 'unsigned char': 8, 'signed char': 8, 'char': 8, 'short': 16, 'unsigned short': 16, '_Bool': 1}


class Ty:
    """kind: int, float, ptr, enum, array, struct, union"""
    __slots__ = ('kind', 'name', 'elem', 'n', 'members', 'text', 'ptype', 'key')

    def __init__(s, kind, name=None, elem=None, n=0, members=None, ptype=None):
        s.kind, s.name, s.elem, s.n, s.members, s.ptype = kind, name, elem, n, members, ptype

    def decl(s, nm):
        """declaration of nm with this type"""
        if s.kind == 'array':
            return s.elem.decl('%s[%s]' % (nm, s.n if s.n is not None else ''))
        if s.kind == 'ptr':
            if s.ptype == 'fn':
                return 'int (*%s)(int)' % nm
            if isinstance(s.ptype, Ty):
                return s.ptype.decl('*%s' % nm if s.ptype.kind != 'array' else '(*%s)' % nm)
            return '%s *%s' % (s.ptype, nm)
        return '%s %s' % (s.name, nm)

    @property
    def scalar(s):
        return s.kind in ('int', 'float', 'ptr', 'enum')


class Member:
    __slots__ = ('name', 'ty', 'bits', 'anon')

    def __init__(s, name, ty, bits=None, anon=False):
        s.name, s.ty, s.bits, s.anon = name, ty, bits, anon


def scalar_of(name):
    return Ty('float' if name in ('float', 'double') else 'int', name)


class TypeGen:
    """opts: pack, align, bitfields, unions, flex, enums, ptr, floats, anon, packed, maxarr"""

    def __init__(self, ch, prefix='S', **opts):
        self.ch, self.prefix, self.opts = ch, prefix, dict(pack=0, align=0, bitfields=1, unions=1, flex=0, enums=1, ptr=1, floats=1, anon=1, packed=0, maxarr=5, bool=1, refs=1, fnptr=0)
        self.opts.update(opts)
        self.n = 0
        self.decls = []
        self.made = []          # named aggregate types
        self.enums = []
        self.tags = set()
        self.mn = 0
        self.aligned = set()    # names of types with extended alignment

    def scalar(self):
        ch, o = self.ch, self.opts
        k = ch.n(12)
        if k == 0 and o['floats']:
            return scalar_of(ch.of(['float', 'double']))
        if k == 1 and o['ptr']:
            if o['fnptr'] and ch.n(3) == 0:
                return Ty('ptr', ptype='fn')
            return Ty('ptr', ptype=ch.of(['char', 'int', 'void', 'short', 'double']))
        if k == 2 and o['enums']:
            if not self.enums or ch.n(3) == 0:
                nm = 'E@%s%d' % (self.prefix, len(self.enums))
                vals = [ch.of([None, 3, -1, 100, 70000]) for _ in range(ch.r(1, 4))]
                self.decls.append('enum %s { %s };\n' % (nm, ', '.join('%s_%d%s' % (nm, i, '' if v is None else ' = %d' % v) for i, v in enumerate(vals))))
                self.enums.append(Ty('enum', 'enum ' + nm))
            return ch.of(self.enums)
        t = ch.of(SCAL if o['floats'] else SCAL[:-2])
        if t == '_Bool' and not o['bool']:
            t = 'int'
        return scalar_of(t)

    def type(self, d=2):
        ch = self.ch
        k = ch.n(10)
        if d <= 0 or k < 5:
            return self.scalar()
        if k < 7:
            return Ty('array', elem=self.type(d - 1), n=ch.r(1, self.opts['maxarr']))
        if k == 7 and self.made and self.opts['refs']:
            return ch.of(self.made)
        return self.aggregate(d - 1, sub=True)

    def mname(self):
        self.mn += 1
        return 'm%d' % self.mn

    def members(self, d, union, maxn=6):
        """-> (members, text)"""
        ch, o = self.ch, self.opts
        n = ch.r(1, maxn)
        ms, out = [], []
        last_bits = None
        for i in range(n):
            k = ch.n(12)
            if o['bitfields'] and (k < 3 or last_bits and k < 7):
                t = last_bits if last_bits and ch.n(2) else ch.of(BITF)
                if not o['bool'] and t == '_Bool':
                    t = 'int'
                last_bits = t
                self.tags.add('bit-field')
                b = ch.r(1, BITS[t])
                z = ch.n(12)
                if z == 0 and ms and not union:
                    out.append('%s : 0;' % t)
                    self.tags.add('zero-width bit-field')
                    continue
                if z == 1 and not union:
                    out.append('%s : %d;' % (t, b))
                    self.tags.add('unnamed bit-field')
                    continue
                nm = self.mname()
                ms.append(Member(nm, scalar_of(t), b))
                out.append('%s %s : %d;' % (t, nm, b))
                continue
            last_bits = None
            if o['anon'] and d > 0 and k == 11:
                u = bool(ch.n(2)) and o['unions']
                sub, text = self.members(d - 1, u, 3)
                if sub:
                    ms.append(Member(None, Ty('union' if u else 'struct', None, members=sub), anon=True))
                    out.append('%s { %s };' % ('union' if u else 'struct', text))
                    self.tags.add('anonymous member')
                continue
            nm = self.mname()
            t = self.type(d)
            al = ''
            if o['align'] and ch.n(10) == 0 and t.name not in self.aligned:
                al = 'ALIGN(%d) ' % ch.of([1, 2, 4, 8, 16, 32, 64])
                self.tags.add('aligned member')
            if t.kind == 'struct' and ch.n(6) == 0 and t.text and not al and 0:
                pass
            ms.append(Member(nm, t))
            out.append('%s%s;' % (al, t.decl(nm)))
        if not ms:
            nm = self.mname()
            ms.append(Member(nm, scalar_of('int')))
            out.append('int %s;' % nm)
        return ms, ' '.join(out)

    def aggregate(self, d=2, union=None, sub=False):
        ch, o = self.ch, self.opts
        if union is None:
            union = bool(o['unions']) and ch.n(5) == 0
        nm = '%s@_%d' % (self.prefix, self.n)
        self.n += 1
        kw = 'union' if union else 'struct'
        ms, text = self.members(d, union)
        pre = post = attr = ''
        if o['pack'] and ch.n(4) == 0:
            p = ch.of([1, 2, 4, 8, 16])
            if ch.n(2):
                pre, post = '\n#pragma pack(push, %d)\n' % p, '\n#pragma pack(pop)\n'
            else:
                pre, post = '\n#pragma pack(%d)\n' % p, '\n#pragma pack()\n'
            self.tags.add('pragma pack')
        elif o['packed'] and '{' not in text and ch.n(8) == 0:
            pre, post, attr = 'PK_PUSH ', ' PK_POP', 'PACKED '
            self.tags.add('packed type')
        elif o['align'] and ch.n(6) == 0:
            attr = 'ALIGN(%d) ' % ch.of([1, 2, 4, 8, 16, 32, 64])
            self.tags.add('aligned type')
        if o['flex'] and not sub and not union and ch.n(8) == 0:
            self.tags.add('flexible array member')
            text += ' %s' % Ty('array', elem=self.scalar(), n=None).decl('flex') + ';'
        t = Ty(kw, None, members=ms)
        form = ch.n(3)
        if form == 0:
            self.decls.append('%s typedef %s %s{ %s } %s;%s\n' % (pre, kw, attr, text, nm, post))
            t.name = nm
        elif form == 1 or not text:
            self.decls.append('%s%s %s%s { %s };%s\n' % (pre, kw, attr, nm, text, post))
            t.name = kw + ' ' + nm
        else:
            self.decls.append('%stypedef %s %s%s_t { %s } %s;%s\n' % (pre, kw, attr, nm, text, nm, post))
            t.name = ch.of([nm, kw + ' ' + nm + '_t'])
        if attr and attr != 'PACKED ':
            self.aligned.add(t.name)
        t.text = text
        if 'flex' not in text:
            self.made.append(t)
        return t


def leaves(ty, path, out=None, bits=None, first_union_only=False):
    """[(path, scalar type, bits)] of all scalar leaves"""
    if out is None:
        out = []
    if ty.scalar:
        out.append((path, ty, bits))
    elif ty.kind == 'array':
        for i in range(ty.n or 0):
            leaves(ty.elem, '%s[%d]' % (path, i), out, None, first_union_only)
    else:
        ms = ty.members[:1] if ty.kind == 'union' and first_union_only else ty.members
        for m in ms:
            leaves(m.ty, path if m.anon else path + '.' + m.name, out, m.bits, first_union_only)
    return out


def log_leaf(path, ty):
    if ty.kind == 'float':
        return 'h_f32(%s);' % path if ty.name == 'float' else 'h_f64(%s);' % path
    if ty.kind == 'ptr':
        return 'h_log(%s != 0);' % path
    return 'h_log((u64)%s);' % path


def subobjects(ty, path, out=None):
    """[(path, type, bits)] of all named sub-objects including aggregates"""
    if out is None:
        out = [(path, ty, None)]
    if ty.kind == 'array':
        for i in range(min(ty.n or 0, 3)):
            out.append(('%s[%d]' % (path, i), ty.elem, None))
            subobjects(ty.elem, '%s[%d]' % (path, i), out)
    elif ty.kind in ('struct', 'union'):
        for m in ty.members:
            p = path if m.anon else path + '.' + m.name
            if not m.anon:
                out.append((p, m.ty, m.bits))
            subobjects(m.ty, p, out)
    return out
