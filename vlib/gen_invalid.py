"""C18: programs that violate one or a few rules, and the same programs without the violations"""
import re
from .core import *
from .diff import *
from .invalid_table import T

# accepted by hlc on purpose or out of its reach
NOT_ENFORCED = {('expr', n) for n in ('pointer plus pointer', 'division by zero', 'modulo by zero', 'trailing comma in call', 'deref of incomplete')} | \
    {('stmt', n) for n in ('redeclared local', 'redeclared local with other type', 'redeclared typedef as variable', 'array without size', 'two storage classes', 'duplicate enumerator')} | \
    {('decl', n) for n in ('struct as enum', 'redefined enum', 'void parameter', 'duplicate parameter', 'parameter redeclared')} | {('pp', n) for n in ('if with junk', 'if with assignment', 'elif with junk', 'invalid paste')}
RULES = [t for t in T if (t[1], t[0]) not in NOT_ENFORCED]
BY = {p: [t for t in RULES if t[1] == p] for p in ('expr', 'stmt', 'decl', 'pp')}
# the error is reported where the construct that was opened begins or where the file ends
OPEN = {'unclosed initialiser', 'missing brace', 'unterminated if', 'unterminated ifdef', 'macro unclosed', 'unclosed paren', 'missing close paren', 'stray brace', 'unclosed subscript', 'missing argument'}
# only looked at when the object is emitted
LAZY = {'static initialised by call', 'static initialised by variable', 'local static initialiser', 'initialised by call', 'initialised by variable', 'initialised by struct', 'address of thread local'}
# everything after them is read differently
ALONE = OPEN | {'endif without if', 'else without if', 'elif without if', 'missing semicolon after struct', 'missing semicolon', 'pack unclosed'}
# the program compiles all the same without these
SYNTAX = re.compile('missing|unclosed|stray|without|unterminated|bad |empty|two (operands|literals)|keyword|type as|lone|extra')
TYPES = '''typedef unsigned char u8; struct In { int y, z; }; struct S { int x; double w; int *p; struct In in; };
struct T { double q; char c; }; union U { int ui; float uf; }; enum E { EA, EB, EC };
'''
FUNCS = '''int gi; struct S gs; int fi(int a) { return a + 1; } void fv(void) { gi++; }
int f2(int a, char *b) { return a + b[0]; } double fd(double a) { return a; }
int fst(struct S a) { return a.x; }
int fva(int a, ...) { return a; }
'''
LOCALS = ['int i = 1, j = 2;', 'unsigned u = 3; long long ll = 4;', 'double d = 1.5; float f = 2;', 'struct S s = {1}, s2 = {2}; struct S *ps = &s;', 'union U un = {1}; struct T t = {2};',
          'int arr[4] = {1}; int *pi = arr; void *pv = arr;', 'char *str = "abc"; int (*fp)(int) = fi; enum E e = EB; _Bool b = 1;']
FILL = ['i = i * 3 + j;', 'if (i > j) { i -= 2; } else j++;', 'for (int k = 0; k < 3; k++) arr[k] += k;', 'ps->x = fi(ps->x);', 's.in.y = (int)d + (i ? 1 : 2);', 'switch (i & 3) { case 0: j++; break; case 1: case 2: j--; default: ; }', 'do { i--; } while (i > 100);',
        '{ int z = 1; i += z; }', '/* comment', 'i = sizeof(struct S) + _Alignof(int);', 'str = "a ; } ) string"; j = \'}\';', 'pi = &arr[1]; *pi += 2; pi--;', 'while (0) { break; }', 'd = d * 2.5 + f;', 'un.ui = 4; f = un.uf;', ';', '// comment ; } )', 'e = EC; b = !b;', 'i \\\n += 1;',
        's2 = s; gs = s;', 'f2(1, "x" "y");', 'fv();', '(void)i;']
FILE_FILL = ['int x%d = 5;', 'static int y%d(int a) { return a; }', 'struct R%d { int a, b; };', 'typedef int t%d;', 'enum e%d { E%d };', '#define M%d(a) a', '/* a\n   comment %d */', '#if 0\n } %d \n#endif', 'int z%d[3] = {1, 2, 3};', 'char *s%d = "a\\"}";', '// c%d', '#define N%d \\\n 5']


# exception handling is not implemented for object files
SEH = {'try without handler', 'exception code outside'}


class InvalidCase(GCase):
    pass


class InvalidWorker(GenWorker):
    def gen(self, ch):
        self.ch = ch
        self.lines = {'a.c': []}
        self.tags = set()
        self.n = 0
        self.bad = []       # [file, first line, last line, text, kind]
        k = ch.weighted([(6, 1), (2, 2), (1, 3)])
        units = [('fill',) for _ in range(ch.n(6))]
        picks = []
        for _ in range(k):
            p = ch.weighted([(6, 'expr'), (6, 'stmt'), (5, 'decl'), (3, 'pp')])
            t = ch.of(BY[p])
            if k > 1 and (t[0] in ALONE or t[0] in LAZY | SEH):
                continue
            picks.append(t)
        if not picks:
            picks = [ch.of(BY['expr'])]
        units += [('rule', t) for t in picks]
        ch.shuffle(units)
        self.twin = {}
        self.good = {}
        a, g = self.render(units)
        a.update({'empty.h': '/* nothing */\n'})
        g.update({'empty.h': '/* nothing */\n'})
        mode = ch.weighted([(4, 'obj'), (3, 'dll'), (2, 'exe'), (1, 'zs')])
        if any(t[0] in LAZY for t in picks):
            mode = 'obj'
        if any(t[0] in SEH for t in picks):
            mode = 'dll'
        opts = ['/quiet'] if ch.chance(1, 2) else []
        if ch.chance(1, 3):
            opts.append('/no_debug')
        if ch.chance(1, 3):
            opts += ['/thread_count', '%d' % ch.of([1, 2, 4])]
        if ch.chance(1, 4):
            opts += ['/seed', '%d' % ch.n(1000)]
        self.tags.add(mode)
        for t in picks:
            self.tags.add('rule: %s: %s' % (t[1], t[0]))
        data = (g, mode, opts, list(self.bad), len(picks))
        text = '\n'.join('// %s\n%s' % x for x in sorted(a.items())) + '\n// expected: ' + '; '.join('%s(%d-%d) %s' % (b[0], b[1], b[2], b[4]) for b in self.bad) + '\n// ' + mode + ' ' + ' '.join(opts)
        fl = dict(a)
        fl.update({'valid-' + n: t for n, t in g.items() if n != 'empty.h'})
        fl['expected.txt'] = text[text.rindex('// expected'):]
        return InvalidCase(text, fl, True, self.tags, data)

    # two texts are built line by line: with and without the violations
    def render(self, units):
        ch = self.ch
        self.out = {}
        self.cur = 'a.c'
        self.b, self.g = {'a.c': []}, {'a.c': []}
        self.put(TYPES if not ch.chance(1, 8) else TYPES.replace('; ', ';\n'))
        self.put(FUNCS)
        funcs = []
        for u in units:
            if u[0] == 'fill':
                self.filler()
                continue
            t = u[1]
            head = None
            if ch.chance(1, 8):
                # in a header
                self.n += 1
                head = 'h%d.h' % self.n
                self.put('#include "%s"' % head)
                self.b[head], self.g[head] = [], []
                self.cur = head
                self.tags.add('header')
            if t[1] in ('decl', 'pp'):
                self.rule(t)
            else:
                self.function(t)
            self.cur = 'a.c'
        for _ in range(ch.n(3)):
            self.filler()
        self.put('int main(void) { return gi; }')
        if ch.chance(1, 3):
            self.put('int DllMain(void *a, unsigned b, void *c) { return 1; }')
        eol = '\r\n' if ch.chance(1, 6) else '\n'
        return {n: eol.join(l) + eol for n, l in self.b.items()}, {n: eol.join(l) + eol for n, l in self.g.items()}

    def put(self, t):
        for l in t.rstrip('\n').split('\n'):
            self.b[self.cur].append(l)
            self.g[self.cur].append(l)

    def filler(self):
        self.n += 1
        t = self.ch.of(FILE_FILL)
        self.put(t.replace('%d', str(self.n)))

    def rule(self, t, wrap='%s'):
        """appends the two texts of a rule"""
        ch = self.ch
        self.n += 1
        sub = lambda x: x.replace('@', '%d' % self.n)
        b, g = [x.split('`') for x in (sub(t[2]), sub(t[3]))]
        if t[1] != 'pp':
            b, g = [wrap.replace('%s', ' '.join(b))], [wrap.replace('%s', ' '.join(g))]
            if ch.chance(1, 5) and '"' not in b[0] and "'" not in b[0] and '__asm__' not in b[0]:
                # on several lines
                b = b[0].replace(' ', '\n', ch.n(3)).split('\n') if ch.chance(1, 2) else ' \n'.join(b[0].rsplit(' ', 1 + ch.n(2))).split('\n')
                self.tags.add('several lines')
        elif ch.chance(1, 4):
            i = ch.n(len(b))
            if b[i].startswith('#'):
                b[i] = ch.of(['  # ', '#  ', '\t#', '/* */ #']) + b[i][1:]
        first = len(self.b[self.cur]) + 1
        self.b[self.cur] += b
        self.g[self.cur] += g
        last = len(self.b[self.cur])
        m = max(len(self.b[self.cur]), len(self.g[self.cur]))
        for x in (self.b, self.g):
            x[self.cur] += [''] * (m - len(x[self.cur]))
        self.bad.append([self.cur, first, last, m, t[0], t[1]])

    def function(self, t):
        ch = self.ch
        self.n += 1
        self.put(('' if t[0] in LAZY else ch.of(['', 'static ', ''])) + 'int fn%d(int a, int c) {' % self.n)
        for l in LOCALS:
            self.put('  ' + l)
        self.body(t, 0)
        self.put('  return i + j + (int)u;')
        self.put('}')

    def fill(self):
        t = self.ch.of(FILL)
        if t.startswith('/*'):
            t = '/* a comment\n ; } ) of two lines */'
        self.put('  ' + t)

    def body(self, t, depth):
        ch = self.ch
        for _ in range(ch.n(3)):
            self.fill()
        k = ch.n(14) if depth < 3 else 0
        if k == 1:
            w = ('{', '}')
        elif k == 2:
            w = ('if (i == 3) {', '} else j = 1;')
        elif k == 3:
            w = ('if (i == 3) j = 1; else {', '}')
        elif k == 4:
            w = ('for (int k = 0; k < 3; k++) {', '}')
        elif k == 5:
            w = ('while (j > 3) {', '  break; }')
        elif k == 6:
            w = ('do {', '} while (0);')
        elif k == 7:
            w = ('switch (i) { case 3: {', '} break; default: j = 0; }')
        elif k == 8:
            w = ('if (0) {', '}')
        else:
            w = None
        if w:
            self.put('  ' + w[0])
            self.body(t, depth + 1)
            self.put('  ' + w[1])
        elif t[1] == 'stmt':
            self.rule(t)
        else:
            self.rule(t, ch.of(['j = %s;', 'j = %s;', 'j = (%s) + 1;', 'fi(%s);', 'if (%s) j = 2;', 'while (%s) break;', 'for (; %s; ) break;', 'for (j = (%s); j < 0; ) ;', 'do { j = 1; } while ((%s) && 0);', 'int k = %s;', 'int k[2] = {1, (%s)};', 'struct In n = {1, (%s)};', 'arr[(%s) & 1] = 3;', 'i ? (%s) : 1;',
                              '(void)(%s);', '(%s);', 'j += 2 * (%s);', 'switch (%s) { case 1: break; }', 'return (%s);', 'if (i) return %s;', 'i && (%s);', 'i = i, (%s);', 'f2((%s), str);', 's.x = (%s);', 'ps->in.y = (%s);', '*pi = (%s);', 'int x1 = 1, x2 = (%s), x3 = 2;', 'd = (%s);', 'for (int k = 0; k < 2; k += 1 + 0 * (%s)) ;', 'l1: j = (%s);',
                              '(%s), i++;', 'i = j = (%s);', 'fi(fi(%s));', 'struct S s4 = {.x = (%s), .w = 2};']))
        for _ in range(ch.n(3)):
            self.fill()

    # ------------------------------------------------------------ judging
    def compile(self, fl, mode, opts):
        for n, t in fl.items():
            self.px.write(n, t)
        out = {'obj': 'a.obj', 'dll': 'a.dll', 'exe': 'a.exe', 'zs': 'a.obj'}[mode]
        try:
            os.unlink(self.px.path(out))
        except OSError:
            pass
        args = {'obj': ['/obj'], 'zs': ['/Zs', '/no_stdlib'], 'dll': ['/dll', '/no_entry', '/no_stdlib'], 'exe': ['/no_stdlib', '/entry', 'main']}[mode] + list(opts) + ['a.c'] + ([] if mode == 'zs' else ['/out:' + out])
        r = self.px.hlc(args)
        return r, os.path.exists(self.px.path(out))

    def judge(self, case):
        g, mode, opts, bad, npick = case.data
        r, o = self.compile(g, mode, opts)
        if r.abnormal:
            return 'bad', 'hlc fails on the valid program: ' + r.abnormal, r.text[-1500:]
        if r.status or re.search(r'\): (Error|Syntax error) at', r.text):
            return 'bad', 'the valid program is rejected', r.text[-1500:]
        if mode != 'zs' and not o:
            return 'bad', 'no output file for the valid program', r.text[-1500:]
        b = {n: t for n, t in case.fl.items() if n.endswith(('.c', '.h')) and not n.startswith('valid-')}
        r, o = self.compile(b, mode, opts)
        if r.abnormal:
            return 'bad', 'hlc fails on the invalid program: ' + r.abnormal, r.text[-1500:]
        if r.status == 0:
            return 'bad', 'an invalid program is accepted', r.text[-800:]
        if r.status != 1:
            return 'bad', 'exit status %d' % r.status, r.text[-800:]
        if o:
            return 'bad', 'an output file is written for an invalid program', r.text[-800:]
        es = re.findall(r'(?m)([^\\/\s(]+)\((\d+),(\d+)\): (?:Error|Syntax error) at [\s\S]*?: (.*)$', r.text)
        es = [(f, int(l)) for f, l, c, t in es if not t.startswith('...')]
        if not es:
            return 'bad', 'no located error', r.text[-800:]
        for i, (f, l) in enumerate(es):
            for file, first, last, m, name, place in bad:
                if f != file and name not in OPEN:
                    continue
                if name in OPEN:
                    break
                # an error after the first one may be a consequence on the next lines
                lim = last + 3 * (i > 0)
                if SYNTAX.search(name) or place == 'pp':
                    # up to the next token
                    ls = b[file].split('\n')
                    lim = last + 1 + 3 * (i > 0)
                    while lim <= len(ls) and not re.sub(r'//.*|/\*.*?\*/|[{}]', '', ls[lim - 1]).strip():
                        lim += 1
                if first <= l <= lim:
                    break
            else:
                return 'bad', 'an error is located elsewhere', 'error in %s line %d, expected %s\n%s' % (f, l, ['%s(%d-%d)' % (x[0], x[1], x[2]) for x in bad], r.text[-1200:])
        return 'ok', '', ''
