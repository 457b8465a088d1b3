"""C24: graphs of functions and data; what is reachable works, what is not reachable is not needed"""
import re
from .core import *
from .diff import *

HEAD = '''typedef unsigned long long u64;
__declspec(dllimport) void h_log(u64);
typedef int fn_t(int);
struct Node { int tag; struct Node *next; fn_t *fn; fn_t *more[2]; };
'''


class DeadCase(GCase):
    pass


class Graph:
    def __init__(self, ch):
        self.ch = ch
        self.nf = ch.of([1, 1, 2, 3])
        self.tags = {'%d files' % self.nf}
        self.items = [[] for _ in range(self.nf)]       # (kind, text)
        self.n = 0
        # functions: name, file, static; the model: calls[k] = list of (target, cond)
        self.live = []
        self.dead = []
        self.calls = {}
        self.vars = 0

    def uid(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def build(self):
        ch = self.ch
        self.count = ch.r(2, 14)
        self.fns = []
        for i in range(self.count):
            f = ch.n(self.nf)
            static = ch.chance(1, 3)
            self.fns.append(dict(i=i, name='f%d' % i, file=f, static=static, refs=[], inline=ch.chance(1, 8), deadonly=False))
        self.roots = []
        for r in range(ch.r(1, 3)):
            # exported
            self.roots.append([(ch.of(self.fns), ch.r(1, 5)) for _ in range(ch.r(1, 2))])
        for fn in self.fns:
            k = ch.weighted([(2, 0), (4, 1), (4, 2), (2, 3)])
            for _ in range(k):
                t = ch.of(self.fns)
                fn['refs'].append(self.ref(fn, t))
        self.dfns = []

    # -------------------------------------------------------------- references
    def visible(self, file):
        return [f for f in self.fns if f['file'] == file or not f['static']]

    def ref(self, fn, t):
        """a way for fn to call t: text of the statement with %x"""
        ch = self.ch
        file = fn['file']
        kind = ch.of(['call', 'call', 'deref', 'local', 'localarr', 'compound', 'static', 'arg', 'cond', 'table', 'table', 'node', 'node', 'assign', 'cast', 'static struct', 'expr', 'block', 'dead if', 'blockextern', 'chain', 'string'])
        if t['static'] and t['file'] != file:
            # through data or functions of its own file
            kind = ch.of(['gate', 'xtable', 'xnode'])
        self.tags.add(kind)
        return (kind, t, self.uid('d'))

    def stmt(self, ref, x, file, out, pre):
        kind, t, d = ref
        n = t['name']
        ch = self.ch
        if kind == 'call':
            return '%s(%s);' % (n, x)
        if kind == 'deref':
            return ch.of(['(*%s)(%s);', '(&%s)(%s);', '(***%s)(%s);', '(%s)(%s);']) % (n, x)
        if kind == 'local':
            return 'fn_t *%s = %s%s; %s(%s);' % (d, ch.of(['', '&']), n, d, x)
        if kind == 'localarr':
            return 'fn_t *%s[3] = {0, [2] = %s}; %s[2](%s);' % (d, n, d, x)
        if kind == 'compound':
            return ch.of(['((struct Node){3, 0, %s}).fn(%s);', '(&(struct Node){.fn = %s})->fn(%s);', '((fn_t *[]){%s})[0](%s);']) % (n, x)
        if kind == 'static':
            return 'static fn_t *%s = %s; %s(%s);' % (d, n, d, x)
        if kind == 'static struct':
            return 'static struct Node %s_a = {.more = {0, %s}}, %s = {1, &%s_a}; %s.next->more[1](%s);' % (d, n, d, d, d, x)
        if kind == 'arg':
            return 'apply%d(%s, %s);' % (file, n, x)
        if kind == 'cond':
            return ch.of(['(x > -5 ? %s : %s)(%s);' % (n, ch.of(self.visible(file))['name'], x), '(%s ? %s : 0)(%s);' % (ch.of(['1', 'x + 10']), n, x), '(x, %s)(%s);' % (n, x)])
        if kind == 'table' or kind == 'xtable':
            f = t['file'] if kind == 'xtable' else file
            st = ch.chance(1, 3) and f == file
            out[f].append('%sfn_t *%s[4] = {%s};' % ('static ' if st else '', d, ch.of(['0, 0, %s, 0', '[2] = %s', '0, 0, &%s', '0, 0, (fn_t *)(void *)%s']) % n))
            pre[file].append('%sfn_t *%s[4];' % ('static ' if st else 'extern ', d))
            return ch.of(['%s[2](%s);', '(*%s[2])(%s);', '(*(%s + 2))(%s);', '{ fn_t **q = &%s[1]; q[1](%s); }']) % (d, x)
        if kind == 'node' or kind == 'xnode':
            f = t['file'] if kind == 'xnode' else file
            g = ch.n(self.nf) if f == file and not t['static'] else f
            out[g].append('struct Node %s_b = {.fn = %s};' % (d, n))
            m = ch.n(self.nf)
            out[m].append('struct Node %s_m[2] = {{0}, {2, &%s_b}};' % (d, d))
            pre[m].append('extern struct Node %s_b;' % d)
            k = ch.n(self.nf)
            pre[k].append('extern struct Node %s_m[2];' % d)
            pre[file].append('extern struct Node *%s;' % d)
            out[k].append(ch.of(['struct Node *%s = &%s_m[1];', 'struct Node *%s = %s_m + 1;', 'struct Node *%s = (struct Node *)((char *)&%s_m + sizeof(struct Node));']) % (d, d))
            return '%s->next->fn(%s);' % (d, x)
        if kind == 'assign':
            out[file].append('static fn_t *%s;' % d)
            pre[file].append('static fn_t *%s;' % d)
            return '%s = %s; %s(%s);' % (d, n, d, x)
        if kind == 'cast':
            return ch.of(['((fn_t *)(u64)%s)(%s);', '((int (*)(int))(void *)&%s)(%s);', '(*(fn_t *)(char *)%s)(%s);']) % (n, x)
        if kind == 'expr':
            return ch.of(['s += 0 * %s(%s);', 'if (%s(%s) < -10) s++;', 'for (int k = 0; k < 1; k += 1 + 0 * %s(%s)) ;', 'switch (%s(%s)) { default: break; }', '1 && %s(%s);', 'while (%s(%s) < -1) ;', 'do s++; while (%s(%s) < -1);', '(void)(%s(%s) + 1);']) % (n, x)
        if kind == 'block':
            return '{ int y = %s; { %s(y); } }' % (x, n)
        if kind == 'blockextern':
            return '{ %sint %s(int); %s(%s); }' % (ch.of(['extern ', '']), n, n, x) if not t['static'] else '%s(%s);' % (n, x)
        if kind == 'dead if':
            return 'if (0) { %s(1); } %s(%s);' % (ch.of(self.visible(file))['name'], n, x)
        if kind == 'chain':
            out[file].append('static fn_t *const %s_1 = %s;' % (d, n))
            pre[file].append('static fn_t *const %s_1; static fn_t *const *const %s_2;' % (d, d))
            out[file].append('static fn_t *const *const %s_2 = &%s_1;' % (d, d))
            return '(**%s_2)(%s);' % (d, x)
        if kind == 'string':
            out[file].append('struct { char *name; fn_t *f; } %s[] = {{"zero", 0}, {"%s", %s}};' % (d, n, n))
            return '%s[1].f((%s) + (%s[1].name[0] - \'f\'));' % (d, x, d)
        if kind == 'gate':
            g = '%s_gate' % d
            out[t['file']].append('int %s(int x) { return %s(x); }' % (g, n))
            pre[file].append('int %s(int x);' % g)
            return '%s(%s);' % (g, x)
        raise CheckError(kind)

    # -------------------------------------------------------------- texts
    def emit(self):
        ch = self.ch
        defs = [[] for _ in range(self.nf)]
        pre = [[] for _ in range(self.nf)]
        for f in self.fns:
            sig = 'int %s(int x)' % f['name']
            st = ('static ' if f['static'] else '') + ('inline ' if f['inline'] and f['static'] else '')
            body = 'int s = %d; h_log(%d); if (x <= 0) return 0; ' % (f['i'], f['i'])
            body += ' '.join(self.stmt(r, 'x - 1', f['file'], defs, pre) for r in f['refs'])
            body += ' return s & 3;'
            for k in range(self.nf):
                if k == f['file'] or not f['static']:
                    pre[k].append(st + sig + ';' if k == f['file'] else sig + ';')
            defs[f['file']].append('%s%s { %s }' % (st, sig, body))
        for k in range(self.nf):
            defs[k].append('static int apply%d(fn_t *f, int x) { return f(x); }' % k)
            pre[k].append('static int apply%d(fn_t *f, int x);' % k)
        return defs, pre

    def undefined(self, d):
        """statements that mention names nobody defines"""
        ch = self.ch
        u = self.uid('undef')
        k = ch.n(9)
        self.un.append(u)
        if k == 0:
            return 'extern int %s;' % u, '%s = x;' % u
        if k == 1:
            return 'int %s(int);' % u, 's += %s(x);' % u
        if k == 2:
            return 'int %s(int);' % u, 'fn_t *p_%s = %s; p_%s(x);' % (u, u, u)
        if k == 3:
            return 'extern struct Node %s[3];' % u, 's += %s[x].tag;' % u
        if k == 4:
            return 'int %s(int);' % u, 'static fn_t *q_%s = %s; q_%s(x);' % (u, u, u)
        if k == 5:
            return 'extern double %s(double, ...);' % u, 's += (int)%s(1.5, x);' % u
        if k == 6:
            return 'extern char *%s;' % u, 'while (*%s) s += *%s++;' % (u, u)
        if k == 7:
            return 'struct Node %s(int);' % u, 's += %s(x).tag;' % u
        return '__declspec(dllimport) int %s(int);' % u, 's += %s(x);' % u

    def add_dead(self, defs, pre, only_static):
        ch = self.ch
        self.un = []
        self.dead_text = []
        names = [[] for _ in range(self.nf)]
        todo = []
        for _ in range(ch.r(1, 6)):
            k = ch.n(self.nf)
            n = self.uid('dead')
            st = only_static or ch.chance(1, 2)
            names[k].append(n)
            if not st:
                for j in range(self.nf):
                    if j != k:
                        names[j].append(n)
            todo.append((k, n, 'static ' + ('inline ' if ch.chance(1, 3) else '') if st else ''))
        for k, n, st in todo:
            decls, body = [], []
            for _ in range(ch.r(1, 3)):
                w = ch.n(10)
                if w < 4:
                    a, b = self.undefined(n)
                    decls.append(a)
                    body.append(b)
                elif w < 6:
                    body.append('s += %s(x - 1);' % ch.of(names[k]))
                    self.tags.add('dead calls dead')
                elif w < 7 and self.visible(k):
                    v = ch.of(self.visible(k))
                    body.append('s += %s(x);' % v['name'])
                    self.tags.add('dead calls live')
                elif w < 8 and w != 6:
                    body.append('static char st_%s[%d] = "abc"; s += st_%s[1];' % (n, ch.r(4, 300), n))
                elif w < 9:
                    body.append('{ fn_t *p = %s; s += p(x); }' % ch.of(names[k]))
                else:
                    body.append('h_log(%d); s += sizeof(struct Node);' % (1000 + ch.n(1000)))
            pre[k] += decls + ['%sint %s(int x);' % (st, n)]
            for j in range(self.nf):
                if j != k and not st:
                    pre[j].append('int %s(int x);' % n)
            defs[k].append('%sint %s(int x) { int s = 0; if (x > 3) return 1; %s return s; }' % (st, n, ' '.join(body)))
            if ch.chance(1, 4):
                # data nobody uses, that names what exists
                defs[k].append('%sint deaddata_%s[%d] = {1, 2, 3};' % (ch.of(['static ', '']), n, ch.r(3, 500)))

    def model(self, root):
        log = []

        def call(f, x, depth=0):
            log.append(f['i'])
            if len(log) > 3000:
                raise OverflowError
            if x <= 0:
                return
            for r in f['refs']:
                call(r[1], x - 1)
        for f, x in root:
            call(f, x)
        return log


class DeadWorker(GenWorker):
    def gen(self, ch):
        while True:
            g = Graph(ch)
            g.build()
            try:
                want = [g.model(r) for r in g.roots]
                break
            except OverflowError:
                continue
        mode = ch.weighted([(5, 'dll'), (3, 'exe'), (3, 'obj')])
        tags = g.tags
        tags.add(mode)
        defs, pre = g.emit()
        # the roots
        roots = []
        for k, r in enumerate(g.roots):
            f = g.ch.n(g.nf)
            body = ''
            for t, x in r:
                if t['static'] and t['file'] != f:
                    gate = g.uid('rgate')
                    defs[t['file']].append('int %s(int x) { return %s(x); }' % (gate, t['name']))
                    pre[f].append('int %s(int x);' % gate)
                    body += ' %s(%d);' % (gate, x)
                else:
                    body += ' %s(%d);' % (t['name'], x)
            defs[f].append('%svoid t%d(void) {%s }' % ('' if mode == 'exe' else '__declspec(dllexport) ', k, body))
            roots.append(f)
            if mode == 'exe':
                for j in range(g.nf):
                    pre[j].append('void t%d(void);' % k)
        expect_exit = 0
        if mode == 'exe':
            m = ch.n(g.nf)
            defs[m].append('int sum; void h_log(u64 v) { sum = (sum * 31ull + v + 1) & 0x7ffff; }')
            for j in range(g.nf):
                pre[j].append('extern int sum;')
            defs[m].append('int main(void) { %s return sum; }' % ' '.join('t%d();' % k for k in range(len(g.roots))))
        live = sum(len(set(w)) for w in want)
        reach = set()
        for w in want:
            reach |= set(w)
        if len(reach) < g.count:
            tags.add('defined functions out of reach')
        proto = ch.chance(2, 3) or mode == "obj"
        self.order = ch

        def texts(defs, pre):
            fl = {}
            for k in range(g.nf):
                d = list(defs[k])
                fl['abc'[k] + '.c'] = (HEAD if mode != 'exe' else HEAD.replace('__declspec(dllimport) ', '')) + '\n'.join((pre[k] if proto else [x for x in pre[k] if not x.startswith(('int f', 'static int f', 'int dead', 'static int dead'))]) + d) + '\n'
            return fl
        for k in range(g.nf):
            ch.shuffle(defs[k])
        plain = texts(defs, pre)
        d2, p2 = [list(x) for x in defs], [list(x) for x in pre]
        g.add_dead(d2, p2, mode == 'obj')
        for k in range(g.nf):
            ch.shuffle(d2[k])
        dead = texts(d2, p2)
        # an undefined name within reach
        control = None
        if ch.chance(1, 3) and mode != 'obj':
            a, b = g.undefined('x')
            u = g.un[-1]
            if True:
                i = ch.of(sorted(reach))
                f = g.fns[i]
                d3, p3 = [list(x) for x in d2], [list(x) for x in p2]
                sig = 'int f%d(int x) {' % i
                d3[f['file']] = [t.replace('int s = %d;' % i, 'int s = %d; %s' % (i, b)) if sig in t else t for t in d3[f['file']]]
                p3[f['file']].append(a)
                control = (texts(d3, p3), u)
                tags.add('undefined name within reach')
        opts = ['/quiet']
        if ch.chance(1, 2):
            opts.append('/no_debug')
        if ch.chance(1, 3):
            opts += ['/thread_count', '%d' % ch.of([1, 2, 4])]
        if ch.chance(1, 3):
            opts += ['/seed', '%d' % ch.n(1000)]
        fl = dict(dead)
        for n, t in plain.items():
            fl['plain-' + n] = t
        if control:
            for n, t in control[0].items():
                fl['control-' + n] = t
        text = '\n'.join('// %s\n%s' % x for x in sorted(dead.items())) + '// %s %s' % (mode, ' '.join(opts))
        fl['expected.txt'] = '%s %s\n%s\n' % (mode, ' '.join(opts), '\n'.join('t%d: %s' % (k, w) for k, w in enumerate(want)))
        return DeadCase(text, fl, len(reach) > 1 and bool(g.un), tags, (plain, dead, control, mode, opts, want))

    def run(self, fl, mode, opts, want, what):
        for n, t in fl.items():
            self.px.write(n, t)
        srcs = sorted(fl)
        for o in ('a.dll', 'a.exe', 'a.obj', 'b.obj', 'c.obj'):
            try:
                os.unlink(self.px.path(o))
            except OSError:
                pass
        lib = [winpath(BUILD + '/harness6.lib')]
        if mode == 'obj':
            objs = []
            for s in srcs:
                o = s[0] + '.obj'
                r = self.px.hlc(['/obj'] + opts + [s, '/out:' + o])
                if r.abnormal or r.status or not os.path.exists(self.px.path(o)):
                    return 'compiling %s fails: %s' % (s, r.abnormal or r.status), r.text[-1200:]
                objs.append(o)
            rc, t = self.px.lld_dll(objs, 'a.dll')
            if rc:
                return 'linking the objects fails', t[-1200:]
            dll = 'a.dll'
        elif mode == 'dll':
            r = self.px.hlc(['/dll', '/no_entry', '/no_stdlib'] + opts + srcs + lib + ['/out:a.dll'])
            if r.abnormal or r.status or not os.path.exists(self.px.path('a.dll')):
                return 'compiling fails: %s' % (r.abnormal or r.status), r.text[-1200:]
            dll = 'a.dll'
        else:
            r = self.px.hlc(['/no_stdlib', '/entry', 'main'] + opts + srcs + ['/out:a.exe'])
            if r.abnormal or r.status or not os.path.exists(self.px.path('a.exe')):
                return 'compiling fails: %s' % (r.abnormal or r.status), r.text[-1200:]
            return self.check_exe(want)
        logs, err, rr = self.px.tests(dll, ['max=4000'])
        if err:
            return 'the program does not run: %s' % err, str(rr)[:500]
        if len(logs) != len(want):
            return 'tests missing', '%d of %d' % (len(logs), len(want))
        for k, l in enumerate(logs):
            if l.status or l.n != len(want[k]) or (l.vals and list(l.vals)[:len(want[k])] != want[k][:len(l.vals)]):
                return 'another behaviour', 't%d: %s, expected %s' % (k, (l.status, l.flags, l.n, list(l.vals)[:40]), want[k][:40])
        return None

    def check_exe(self, want):
        r = self.px.exe_run('a.exe', '')
        h = 0
        for w in want:
            for v in w:
                h = (h * 31 + v + 1) & 0x7ffff
        if r.status != h:
            return 'another behaviour', 'exit status %s %s, expected %d' % (r.status, r.abnormal, h)
        return None

    def judge(self, case):
        plain, dead, control, mode, opts, want = case.data
        for fl, what in ((plain, 'without dead code'), (dead, 'with dead code')):
            e = self.run(fl, mode, opts, want, what)
            if e:
                return 'bad', what + ': ' + e[0], e[1]
        if control:
            for n, t in control[0].items():
                self.px.write(n, t)
            out = {'dll': 'a.dll', 'exe': 'a.exe'}[mode]
            os.unlink(self.px.path(out))
            r = self.px.hlc((['/dll', '/no_entry', '/no_stdlib'] if mode == 'dll' else ['/no_stdlib', '/entry', 'main']) + opts + sorted(control[0]) + ([winpath(BUILD + '/harness6.lib')] if mode == 'dll' else []) + ['/out:' + out])
            if r.abnormal:
                return 'bad', 'undefined name within reach: ' + r.abnormal, r.text[-1200:]
            if r.status == 0 or os.path.exists(self.px.path(out)):
                return 'bad', 'an undefined name within reach is accepted', r.text[-1200:]
            if control[1] not in r.text:
                return 'bad', 'the undefined name is not named', r.text[-1200:]
        return 'ok', '', ''
