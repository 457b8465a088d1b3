"""C05: layout of types."""
from .core import *
from .diff import *
from .ctypes_gen import *


def gen_layout(ch):
    g = TypeGen(ch, 'S', pack=1, align=1, packed=1, flex=1, fnptr=1)
    body = []
    n = ch.r(1, 3)
    names = []
    for i in range(n):
        t = g.aggregate(ch.of([1, 2, 2, 3]))
        names.append(t)
    nfields = 0
    for i, t in enumerate(names):
        body.append('h_log(sizeof(%s)); h_log(_Alignof(%s));' % (t.name, t.name))
        seen = set()
        for p, ty, bits in subobjects(t, 'x'):
            if p == 'x' or p in seen:
                continue
            seen.add(p)
            nfields += 1
            if nfields > 40:
                break
            m = p[2:]
            if bits is None:
                body.append('h_log((u64)&((%s *)0)->%s); h_log(sizeof(((%s *)0)->%s));' % (t.name, m, t.name, m))
                if ch.n(6) == 0 and '[' not in m:
                    body.append('h_log(OFFSETOF(%s, %s));' % (t.name, m))
            else:
                body.append('{ static %s z; z.%s = %s; h_mem(&z, sizeof(z)); }' % (t.name, m, '1' if ty.name == '_Bool' else '-1'))
        if 'flex' in t.text:
            body.append('h_log((u64)((%s *)0)->flex); ' % t.name)
        k = ch.n(6)
        if k == 0:
            body.append('{ char c = 1; %s l; h_log((u64)&l & (_Alignof(%s) - 1) & 15); h_log((u64)&c == 0); }' % (t.name, t.name))
        elif k == 1 and 'flex' not in t.text:
            g.decls.append('static char c@_%d; %s g@_%d; static %s h@_%d[3] = {0};\n' % (i, t.name, i, t.name, i))
            body.append('c@_%d = 1; h_log((u64)&g@_%d & (_Alignof(%s) - 1)); h_log((u64)&h@_%d & (_Alignof(%s) - 1)); h_log((char *)&h@_%d[2] - (char *)h@_%d);' % (i, i, t.name, i, t.name, i, i))
        elif k == 2 and 'flex' not in t.text:
            body.append('h_log(sizeof(%s[%d])); h_log(sizeof(struct { char c; %s x; })); h_log(sizeof(struct { char a; union { char c; %s x; } u; char b; }));' % (t.name, ch.r(1, 9), t.name, t.name))
    # declarators and composite types
    for i in range(ch.n(4)):
        t = ch.of(names) if ch.n(3) == 0 else g.scalar()
        if t.kind in ('struct', 'union') and 'flex' in t.text:
            continue
        tn = t.decl('').strip()
        a, b = ch.r(1, 7), ch.r(1, 5)
        if t.kind == 'ptr' and t.ptype == 'fn':
            continue
        body.append('h_log(sizeof(%s));' % ch.of(['%s[%d][%d]' % (tn, a, b), '%s(*)[%d]' % (tn, a), '%s(*[%d])(int)' % (tn, b), '%s *[%d][%d]' % (tn, a, b), '%s(**)[%d]' % (tn, a), '*(%s(*)[%d])0' % (tn, a), '**(%s(*)[%d])0' % (tn, a), '*(%s(*)[%d][%d])0' % (tn, a, b)]))
    decls = ''.join(g.decls)
    return Case(decls, ' '.join(body), nontrivial=nfields >= 3 and len(decls) > 60, tags=sorted(g.tags))


def gen_pack(ch):
    """a history of #pragma pack operations with declarations in between"""
    tags = {'pack history'}
    g = TypeGen(ch, 'S', fnptr=1)
    base = ch.of([1, 2, 4, 8, 16])
    o = ['#pragma pack(push, pk@, %d)\n' % base]
    ids = ['A', 'B', 'push_1', 'x']
    depth, body, nops = 0, [], 0

    def num(p):
        return ch.of(['%d', '%d', '0x%x']) % p

    def emit(a):
        k = ch.n(6)
        if k == 0:
            o.append('__pragma(pack(%s))\n' % a)
            tags.add('__pragma')
        elif k == 1:
            o.append('#\tpragma  pack ( %s ) // c\n' % a.replace(',', ch.of([',', ' ,', ' , ', ' /* , */,'])))
        else:
            o.append('#pragma pack(%s)\n' % a)
    stack = []
    for i in range(ch.r(4, 14)):
        k = ch.n(10)
        if k == 0:
            emit(num(ch.of([1, 2, 4, 8, 16])))
        elif k == 1:
            emit('')
        elif k < 4:
            a, ident = 'push', None
            if ch.n(2):
                ident = ch.of(ids)
                a += ', ' + ident
                tags.add('push with identifier')
            if ch.n(2):
                a += ', ' + num(ch.of([1, 2, 4, 8, 16]))
            emit(a)
            stack.append(ident)
        elif k < 6:
            ident = ch.of(ids) if ch.n(2) else None
            a = 'pop'
            if ident:
                a += ', ' + ident
                if ident in stack:
                    while stack.pop() != ident:
                        pass
                    tags.add('pop of an identifier')
                else:
                    tags.add('pop of an unknown identifier')
            elif not stack:
                continue
            else:
                stack.pop()
            if ch.n(4) == 0:
                a += ', ' + num(ch.of([1, 2, 4, 8, 16]))
                tags.add('pop with a value')
            emit(a)
        else:
            o.append('struct T@_%d { char a; %s b; char c; %s d; char e; } t@_%d;\n' % (i, ch.of(['short', 'int', 'long long', 'double', 'void *']), ch.of(['short', 'int', 'long long', 'float', 'struct { char a; int b; }']), i))
            body.append('h_log(sizeof(struct T@_%d)); h_log(_Alignof(struct T@_%d)); h_log(OFFSETOF(struct T@_%d, b)); h_log(OFFSETOF(struct T@_%d, d)); h_log(OFFSETOF(struct T@_%d, e));' % (i, i, i, i, i))
            continue
        nops += 1
    o.append('struct T@ { char a; long long b; } tail@;\n#pragma pack(pop, pk@)\n')
    body.append('h_log(sizeof(struct T@));')
    return Case(''.join(o), ' '.join(body), nontrivial=nops >= 2 and len(body) > 2, tags=sorted(tags))


class LayoutWorker(DiffWorker):
    prelude = PRELUDE + '#ifdef __clang__\n#define PK_PUSH _Pragma("pack(push,1)")\n#define PK_POP _Pragma("pack(pop)")\n#define PACKED\n#else\n#define PK_PUSH\n#define PK_POP\n#define PACKED __declspec(packed)\n#endif\n#define ALIGN(n) __declspec(align(n))\n#define OFFSETOF(t, m) ((u64)&((t *)0)->m)\n'
    max_log = 300
    clang_opt = '-O0'

    def gen(self, ch):
        return gen_pack(ch) if ch.n(8) == 7 else gen_layout(ch)
