"""C17: programs of functions with frames of every kind that raise, filter and handle exceptions, against a model of
two-phase exception handling; unwinding is checked at h_unwind() calls and, under h_step, at every instruction"""
from .core import *
from .diff import *

HEAD = '''typedef unsigned long long u64;
__declspec(dllimport) void h_log(u64); __declspec(dllimport) void h_unwind(void); __declspec(dllimport) void h_step(int);
__declspec(dllimport) void RaiseException(unsigned, unsigned, unsigned, u64 *);
#include <stdarg.h>
struct rec { unsigned code, flags; void *r, *addr; unsigned n; u64 info[15]; };
struct ptrs { struct rec *rec; char *ctx; };
struct big { int a[%d]; };
struct small { short a, b; };
int g0, g1, g2, g3, zero;
double gd = 1.5;
u64 infos[4] = {11, 0xffffffffffffffff, 33, 44};
void L(int k, int v) { h_log((u64)k << 32 | (unsigned)v); }
void fill(char *p, int n, int seed) { for (int i = 0; i < n; i++) p[i] = (char)(seed + i * 3); }
int sum(char *p, int n) { int s = 0; for (int i = 0; i < n; i++) s = s * 5 + (p[i] & 255) & 0xffff; return s; }
struct big mk(int x) { struct big b = {0}; b.a[0] = x; b.a[%d] = x + 1; return b; }
'''
AV, BP, DIV, SOFT = 0xC0000005, 0x80000003, 0xC0000094, 0xE0000000
M32 = 0xffffffff


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Goto(Exception):
    pass


class Unwind(Exception):
    def __init__(self, h):
        self.h = h


class Limit(Exception):
    pass


def fsum(n, seed):
    s = 0
    for i in range(n):
        s = s * 5 + ((seed + i * 3) & 255) & 0xffff
    return s


class State:
    def __init__(self, prog):
        self.g = [0] * 4
        self.log = []
        self.handlers = []
        self.steps = self.raises = self.caught = self.resumed = self.depth = self.crossed = 0
        self.prog = prog

    def L(self, k, v):
        self.log.append(k << 32 | v & M32)

    def step(self):
        self.steps += 1
        if self.steps > 700 or len(self.log) > 900:
            raise Limit()

    def throw(self, code, info):
        self.raises += 1
        for i in range(len(self.handlers) - 1, -1, -1):
            h = self.handlers[i]
            v = h[0](self, code, info)
            if v < 0:
                self.resumed += 1
                return
            if v > 0:
                self.caught += 1
                self.crossed += self.depth - h[1] > 0
                raise Unwind(h)
        raise Limit()


class Gen:
    def __init__(self, ch):
        self.ch = ch
        self.tags = set()
        self.k = 0
        self.uid = 0
        self.filters = []       # [(soft, hard, bp)] answers of the filter functions by index
        self.funcs = []
        self.bign = ch.of([3, 5, 16, 40])

    def key(self):
        self.k += 1
        return self.k

    # ---- expressions over locals and globals: (text, eval)
    def expr(self, fn):
        ch = self.ch
        n = ch.n(5)
        if n == 0:
            c = ch.r(0, 99)
            return str(c), lambda S, e: c
        if ch.chance(1, 4):
            i = ch.n(4)
            t, f = 'g%d' % i, lambda S, e: S.g[i]
        else:
            v = ch.of(fn['vars'])
            t, f = v, lambda S, e: e[v]
        if n == 1:
            return t, f
        c = ch.r(1, 9)
        op = ch.of('+*&^')
        g = {'+': lambda a: a + c, '*': lambda a: a * c, '&': lambda a: a & c, '^': lambda a: a ^ c}[op]
        return '(%s %s %d)' % (t, op, c), lambda S, e: g(f(S, e))

    # ---- filters: (text, eval(S, code, info))
    def filter(self):
        ch = self.ch
        k = ch.weighted([(4, 'one'), (2, 'zero'), (5, 'F'), (5, 'Fi'), (2, 'glob'), (3, 'code'), (2, 'comma'), (2, 'F6'), (2, 'logic'), (2, 'cond')])
        self.tags.add('filter-' + k)
        if k == 'one':
            c = ch.of(['1', '2', '0x7fffffff', '(int)1u', '!0', '3 > 2'])
            return c, lambda S, code, info: 1
        if k == 'zero':
            return '0', lambda S, code, info: 0
        if k == 'glob':
            i, c = ch.n(4), ch.r(0, 40)
            return ch.of(['g%d > %d', 'g%d >= %d + 1']) % (i, c), lambda S, code, info: int(S.g[i] > c)
        if k == 'code':
            c = ch.of([AV, BP, DIV, SOFT + 1, SOFT + 2])
            if ch.chance(1, 2):
                return '_exception_code() == 0x%x' % c, lambda S, code, info: int(code == c)
            return '_exception_code() != 0x%xu ? 1 : 0' % c, lambda S, code, info: int(code != c)
        if k == 'cond':
            t1, f1 = self.filter_call()
            t2, f2 = self.filter_call()
            c = ch.of([AV, BP, DIV, SOFT + 1, SOFT + 2])
            return '_exception_code() == 0x%xu ? %s : %s' % (c, t1, t2), lambda S, code, info: f1(S, code, info) if code == c else f2(S, code, info)
        if k == 'comma':
            i = ch.n(4)
            t, f = self.filter_call()

            def ev(S, code, info):
                S.g[i] += 1
                return f(S, code, info)
            return 'g%d++, %s' % (i, t), ev
        if k == 'logic':
            t1, f1 = self.filter_call(nobp=True)
            t2, f2 = self.filter_call(nobp=True)
            if ch.chance(1, 2):
                return '%s && %s' % (t1, t2), lambda S, code, info: self.logic(S, code, info, f1, f2, 1)
            return '%s || %s' % (t1, t2), lambda S, code, info: self.logic(S, code, info, f1, f2, 0)
        return self.filter_call(k)

    def logic(self, S, code, info, f1, f2, land):
        a = f1(S, code, info)
        if land and not a:
            return 0
        if not land and a:
            return 1
        return int(f2(S, code, info) != 0)

    def filter_call(self, k=None, nobp=False):
        ch = self.ch
        k = k or ch.of(['F', 'Fi', 'F6'])
        n = len(self.filters)
        # the value of a logical operator is never -1, so that a filter below it must not move the instruction pointer
        self.filters.append((ch.of([1, 1, 0, -1, -1]), ch.of([1, 1, 0, 5]), ch.of([1, 0, 1 if nobp else -1])))
        soft, hard, bp = self.filters[n]
        key = self.key()

        def ans(code):
            return soft if code >> 28 == 0xE else bp if code == BP and k == 'Fi' else hard
        if k == 'F':
            def ev(S, code, info):
                S.L(key, code)
                return ans(code)
            return 'F(%d, %d, _exception_code())' % (key, n), ev
        if k == 'Fi':
            def ev(S, code, info):
                S.L(key, code)
                S.log += [len(info)] + info + [1]
                return ans(code)
            return 'Fi(_exception_info(), %d, %d)' % (key, n), ev
        c = [ch.r(1, 90) for _ in range(3)]
        i = ch.n(4)

        def ev(S, code, info):
            S.L(key, code)
            S.log.append((c[0] * 3 + c[1] * 7 + c[2] * 11 + S.g[i] * 13 + 17) & M32)
            return ans(code)
        return 'F6(%d, %d, %d, %d, 17.0, %d, g%d, _exception_code())' % (key, n, c[0], c[1], c[2], i), ev

    # ---- statements: (lines, exec(S, env))
    def block(self, fn, depth, loop):
        ch = self.ch
        out, ex = [], []
        for _ in range(1 + ch.weighted([(3, 0), (3, 1), (2, 2), (1, 3)])):
            l, f = self.stmt(fn, depth, loop)
            out += l
            ex.append(f)

        def run(S, e):
            for f in ex:
                S.step()
                f(S, e)
        return ['  ' + x for x in out], run

    def stmt(self, fn, depth, loop):
        ch = self.ch
        k = ch.weighted([(6, 'log'), (6, 'set'), (3, 'gset'), (3, 'if'), (2, 'for'), (1, 'while'), (2, 'switch'), (6 if depth > 0 else 0, 'try'), (4, 'raise'), (4, 'fault'), (4, 'call'), (1, 'ret'), (1, 'goto'), (2 if loop else 0, 'break'), (2 if loop else 0, 'cont'), (2, 'unwind'), (2, 'chk'), (1, 'alloca')])
        if depth <= 0 and k in ('if', 'for', 'while', 'switch'):
            k = 'log'
        if k == 'log':
            key = self.key()
            t, f = self.expr(fn)
            return ['L(%d, %s);' % (key, t)], lambda S, e: S.L(key, f(S, e))
        if k == 'set':
            v = ch.of(fn['vars'][1:])
            t, f = self.expr(fn)

            def ex(S, e):
                e[v] = f(S, e) & 0xffff
            return ['%s = %s & 0xffff;' % (v, t)], ex
        if k == 'gset':
            i = ch.n(4)
            t, f = self.expr(fn)

            def ex(S, e):
                S.g[i] = f(S, e) & 0xffff
            return ['g%d = %s & 0xffff;' % (i, t)], ex
        if k == 'unwind':
            return ['h_unwind();'], lambda S, e: None
        if k == 'chk':
            return self.chk(fn)
        if k == 'alloca':
            self.tags.add('alloca')
            n, seed, key = ch.of([1, 16, 100, 200, 5000]), ch.r(0, 200), self.key()
            m = min(n, 12)
            p = self.fresh('p')
            return ['{ char *%s = _alloca(%d); fill(%s, %d, %d); h_unwind(); L(%d, sum(%s, %d)); }' % (p, n, p, m, seed, key, p, m)], lambda S, e: S.L(key, fsum(m, seed))
        if k == 'if':
            t, f = self.expr(fn)
            c = ch.r(0, 60)
            a, fa = self.block(fn, depth - 1, loop)
            b, fb = self.block(fn, depth - 1, loop)
            return ['if (%s > %d) {' % (t, c)] + a + ['} else {'] + b + ['}'], lambda S, e: fa(S, e) if f(S, e) > c else fb(S, e)
        if k in ('for', 'while'):
            i, n = self.fresh('i'), ch.r(1, 3)
            a, fa = self.block(fn, depth - 1, True)

            def ex(S, e):
                for _ in range(n):
                    try:
                        fa(S, e)
                    except Brk:
                        break
                    except Cont:
                        pass
            if k == 'for':
                return ['for (int %s = 0; %s < %d; %s++) {' % (i, i, n, i)] + a + ['}'], ex
            return ['int %s = %d;' % (i, n), 'while (%s--) {' % i] + a + ['}'], ex
        if k == 'switch':
            t, f = self.expr(fn)
            n = ch.r(1, 3)
            cs = [self.block(fn, depth - 1, loop) for _ in range(n + 1)]
            falls = [ch.chance(1, 4) for _ in range(n + 1)]
            out = ['switch (%s %% %d) {' % (t, n + 2)]
            # a break belongs to the switch, continue to the loop around it
            for j, (l, _) in enumerate(cs):
                out += ['case %d: {' % j if j < n else 'default: {'] + l + (['}'] if falls[j] else ['} break;'])

            def ex(S, e):
                j = min(f(S, e) % (n + 2), n)
                try:
                    while j <= n:
                        cs[j][1](S, e)
                        if not falls[j]:
                            break
                        j += 1
                except Brk:
                    pass
            return out + ['}'], ex
        if k == 'break':
            def ex(S, e):
                raise Brk()
            t, f = self.expr(fn)
            c = ch.r(0, 40)
            return ['if (%s >= %d) break;' % (t, c)], lambda S, e: ex(S, e) if f(S, e) >= c else None
        if k == 'cont':
            def ex(S, e):
                raise Cont()
            t, f = self.expr(fn)
            c = ch.r(0, 40)
            return ['if (%s >= %d) continue;' % (t, c)], lambda S, e: ex(S, e) if f(S, e) >= c else None
        if k == 'goto':
            fn['end'] = True

            def ex(S, e):
                raise Goto()
            t, f = self.expr(fn)
            c = ch.r(0, 90)
            return ['if (%s > %d) goto end;' % (t, c)], lambda S, e: ex(S, e) if f(S, e) > c else None
        if k == 'ret':
            t, f = self.expr(fn)
            t2, f2 = self.expr(fn)
            c = ch.r(0, 90)

            def ex(S, e):
                if f2(S, e) > c:
                    raise Ret(f(S, e))
            return ['if (%s > %d) return %s;' % (t2, c, self.retval(fn, t))], ex
        if k == 'raise':
            self.tags.add('raise')
            code = SOFT + ch.r(0, 4)
            n = ch.of([0, 0, 1, 2, 4])
            info = [11, 0xffffffffffffffff, 33, 44][:n]
            return ['RaiseException(0x%x, 0, %d, %s);' % (code, n, 'infos' if n or ch.chance(1, 2) else '0')], lambda S, e: S.throw(code, info)
        if k == 'fault':
            w = ch.of(['write', 'read', 'div', 'bp', 'read8', 'wild', 'mod'])
            self.tags.add('fault-' + w)
            v = ch.of(fn['vars'][1:])
            if w == 'write':
                return ['*(int *)16 = %s;' % v], lambda S, e: S.throw(AV, [1, 16])
            if w == 'read':
                return ['%s = *(int *)8;' % v], lambda S, e: S.throw(AV, [0, 8])
            if w == 'read8':
                return ['%s = (%s + ((char *)0)[5]) & 0xffff;' % (v, v)], lambda S, e: S.throw(AV, [0, 5])
            if w == 'wild':
                return ['((struct rec *)0)->n = %s;' % v], lambda S, e: S.throw(AV, [1, 24])
            if w == 'div':
                return ['%s = %s / zero;' % (v, v)], lambda S, e: S.throw(DIV, [])
            if w == 'mod':
                return ['%s = %s %% zero;' % (v, v)], lambda S, e: S.throw(DIV, [])
            return ['__debugbreak();'], lambda S, e: S.throw(BP, [0])
        if k == 'call':
            return self.call(fn)
        # try
        self.tags.add('try')
        fn['try'] = True
        a, fa = self.block(fn, depth - 1, loop)
        t, f = self.filter()
        b, fb = self.block(fn, depth - 1, loop)

        def ex(S, e):
            h = [f, S.depth]
            S.handlers.append(h)
            n = len(S.handlers)
            d = S.depth
            try:
                fa(S, e)
            except Unwind as u:
                del S.handlers[n - 1:]
                if u.h is not h:
                    raise
                S.depth = d
            else:
                del S.handlers[n - 1:]
                return
            finally:
                del S.handlers[n - 1:]
            fb(S, e)
        return ['__try {'] + a + ['} __except (%s) {' % t] + b + ['}'], ex

    def fresh(self, p):
        self.uid += 1
        return p + str(self.uid)

    def chk(self, fn):
        key = self.key()
        b = fn['buf']
        if b:
            m = min(b[0], 20)
            return ['L(%d, sum(buf, %d));' % (key, m)], lambda S, e: S.L(key, fsum(m, b[1]))
        x = fn['extra']
        return ['L(%d, %s);' % (key, x[0])], lambda S, e: S.L(key, e['extra'])

    def retval(self, fn, t):
        return {'int': t, 'big': 'mk(%s)' % t, 'double': '(double)(%s)' % t, 's64': '(long long)%s << 20' % t}[fn['ret']]

    def call(self, fn, d='d - 1'):
        ch = self.ch
        if not self.funcs and not fn:
            raise Overrun()
        cands = list(self.funcs)
        rec = fn and ch.chance(1, 4) or not cands
        c = fn if rec else ch.of(cands)
        v = ch.of(fn['vars'][1:])
        t, f = self.expr(fn)
        x = ch.r(0, 99)
        extra, ev = c['args'](x)
        text = '%s(%s, %s%s)' % (c['name'], 'd - 1' if rec else 'd', t, extra)
        text = {'int': text, 'big': text + '.a[%d]' % 0, 'double': '(int)' + text, 's64': '(int)(%s >> 20)' % text}[c['ret']]
        mode = ch.n(3)
        stmt = ['%s = %s & 0xffff;' % (v, text), '%s = (%s + %s) & 0xffff;' % (v, v, text), '%s += %s; %s &= 0xffff;' % (v, text, v)][mode]
        if rec:
            stmt = 'if (d > 0) { %s }' % stmt

        def ex(S, e):
            d = e['d']
            if rec and d <= 0:
                return
            r = c['run'](S, d - 1 if rec else d, f(S, e), ev)
            e[v] = (r if mode == 0 else e[v] + r) & 0xffff
        return [stmt], ex

    def func(self, name):
        ch = self.ch
        kind = ch.weighted([(4, 'plain'), (2, 'many'), (2, 'struct'), (2, 'varargs'), (1, 'float')])
        self.tags.add('fn-' + kind)
        fn = dict(name=name, vars=['a', 'v0', 'v1', 'v2'][:ch.r(2, 4)], ret=ch.weighted([(5, 'int'), (1, 'big'), (1, 'double'), (1, 's64')]), buf=None, end=False)
        if ch.chance(1, 2):
            n = ch.of([1, 8, 24, 100, 119, 120, 128, 200, 1000, 4095, 4096, 5000, 70000, 600000])
            fn['buf'] = (n, ch.r(0, 99))
            self.tags.add('frame-%d' % n)
        if kind == 'plain':
            fn['args'] = lambda x: ('', 0)
            params, fn['extra'], pre = '', ('7', 7), []
        elif kind == 'many':
            fn['args'] = lambda x: (', %d, %d, %d, %d' % (x, x + 1, x + 2, x + 3), x * 4 + 6)
            params, fn['extra'], pre = ', int e0, int e1, char e2, long long e3', ('(int)(e0 + e1 + e2 + e3)', 0), []
        elif kind == 'struct':
            fn['args'] = lambda x: (', mk(%d), (struct small){%d, %d}' % (x, x, x + 5), 4 * x + 6)
            params, fn['extra'], pre = ', struct big s, struct small t', ('s.a[0] + s.a[%d] + t.a + t.b' % (self.bign - 1), 0), []
        elif kind == 'float':
            fn['args'] = lambda x: (', %d.5, %d.25f, %d' % (x, x, x), 3 * x)
            params, fn['extra'], pre = ', double e0, float e1, int e2', ('(int)e0 + (int)e1 + e2', 0), []
        else:
            fn['args'] = lambda x: (', %d, %dll, %d' % (x, x + 1, x + 2), 3 * x + 3)
            params, fn['extra'] = ', ...', ('ex', 0)
            pre = ['va_list va; va_start(va, a); int ex = va_arg(va, int); ex += (int)va_arg(va, long long); ex += va_arg(va, int); va_end(va);']
        ret = {'int': 'int', 'big': 'struct big', 'double': 'double', 's64': 'long long'}[fn['ret']]
        init = {v: ch.r(0, 60) for v in fn['vars'][1:]}

        def run(S, d, a, extra):
            S.step()
            S.depth += 1
            e = dict(init)
            e.update(d=d, a=a, extra=extra if kind != 'plain' else 7)
            try:
                try:
                    fn['body'](S, e)
                except Goto:
                    pass
                S.L(fn['key'], e['a'])
                r = e[fn['vars'][-1]]
            except Ret as x:
                r = x.v
            S.depth -= 1
            return r
        fn['run'] = run
        body, fn['body'] = self.block(fn, 3, False)
        fn['key'] = self.key()
        out = ['%s %s(int d, int a%s) {' % (ret, name, params)] + ['  ' + p for p in pre]
        out.append('  int ' + ', '.join('%s = %d' % (v, init[v]) for v in fn['vars'][1:]) + ';')
        if fn['buf']:
            n, seed = fn['buf']
            out.append('  char buf[%d]; fill(buf, %d, %d); buf[%d] = buf[%d];' % (n, min(n, 20), seed, n - 1, n - 1 if n <= 20 else 0))
        out += body
        if fn['end']:
            out.append('end:;')
        out.append('  L(%d, a); return %s; }' % (fn['key'], self.retval(fn, fn['vars'][-1])))
        self.funcs.append(fn)
        return out


class SehCase(GCase):
    pass


class SehWorker(GenWorker):
    def gen(self, ch):
        g = Gen(ch)
        src = []
        for i in range(ch.r(1, 4)):
            src.append(g.func('f%d' % i))
        expects, steps, tests = [], [], []
        stat = dict(raises=0, caught=0, crossed=0, resumed=0)
        top = g.funcs[-1]
        for i in range(ch.r(1, 3)):
            c = top if i == 0 else ch.of(g.funcs)
            x = ch.r(0, 99)
            extra, ev = c['args'](x)
            d, a = ch.r(0, 2), ch.r(0, 60)
            step = ch.chance(1, 3)
            key = g.key()
            S = State(g)
            outer = [lambda S, code, info: 1, 0]
            S.handlers.append(outer)
            try:
                try:
                    r = c['run'](S, d, a, ev)
                    S.L(key, r & 0xffff)
                except Unwind:
                    S.L(key, -1)
            except Limit:
                raise Overrun()
            S.log.append(sum(v << (8 * i) for i, v in enumerate([0])) + 12345)
            call = '%s(d, %d%s)' % (c['name'], a, extra)
            call = {'int': call, 'big': call + '.a[0]', 'double': '(int)' + call, 's64': '(int)(%s >> 20)' % call}[c['ret']]
            tests.append('__declspec(dllexport) void t%d(void) {\n  int d = %d; g0 = g1 = g2 = g3 = 0;\n  __try {%s int r = %s & 0xffff;%s L(%d, r);\n  } __except (1) { L(%d, -1); }\n  h_log(12345); }' % (i, d, ' h_step(1);' if step else '', call, ' h_step(0);' if step else '', key, key))
            expects.append(S.log)
            steps.append(step)
            for k in stat:
                stat[k] += getattr(S, k)
        tab = ''
        n = max(len(g.filters), 1)
        for j, nm in enumerate(['ts', 'th', 'tb']):
            tab += 'int %s[] = {%s};\n' % (nm, ', '.join(str(f[j]) for f in g.filters) or '0')
        tab += '''int ans(int n, unsigned code, int info) { return code >> 28 == 0xE ? ts[n] : code == 0x80000003 && info ? tb[n] : th[n]; }
int F(int key, int n, unsigned code) { L(key, (int)code); h_unwind0(); return ans(n, code, 0); }
int Fi(struct ptrs *p, int key, int n) {
  L(key, (int)p->rec->code); h_log((u64)p->rec->n);
  for (unsigned i = 0; i < p->rec->n; i++) h_log(p->rec->info[i]);
  h_log((u64)(p->rec->code >> 28 == 0xE || (u64)p->rec->addr == *(u64 *)(p->ctx + 0xf8)));
  int r = ans(n, p->rec->code, 1);
  if (r < 0 && p->rec->code == 0x80000003) *(u64 *)(p->ctx + 0xf8) += 1;
  return r; }
int F6(int key, int n, int a, int b, double c, int d, int e, unsigned code) { L(key, (int)code); h_log((u64)(unsigned)(a * 3 + b * 7 + d * 11 + e * 13 + (int)c)); return ans(n, code, 0); }
'''.replace(' h_unwind0();', '')
        text = HEAD % (g.bign, g.bign - 1) + tab + '\n'.join('\n'.join(s) for s in src) + '\n' + '\n'.join(tests) + '\n'
        c = SehCase(text, {'a.c': text}, stat['raises'] > 0 or any(steps), {k + (':%d' % min(v, 3)) for k, v in stat.items()} | g.tags, None)
        c.expects, c.steps = expects, steps
        return c

    def judge(self, c):
        px = self.px
        for n, t in c.fl.items():
            px.write(n, t)
        r = px.hlc_dll(['a.c'], 'a.dll')
        if r.status != 0 or r.abnormal:
            return 'bad', 'hlc fails: status %d' % r.status, r.text
        logs, err, rr = px.tests('a.dll', ['max=1000', 'seh'])
        if err or len(logs) != len(c.expects):
            return 'bad', 'the image does not load or run', str(err) + (rr.text if rr else '')
        for i, (l, x) in enumerate(zip(logs, c.expects)):
            if l.status:
                return 'bad', 'test ends abnormally', 't%d: status %d (100: exception not handled)' % (i, l.status)
            if list(l.vals) != x:
                k = next((k for k in range(min(len(l.vals), len(x))) if l.vals[k] != x[k]), min(len(l.vals), len(x)))
                return 'bad', 'different history', 't%d: entry %d: expected %s, got %s' % (i, k, [hex(v) for v in x[k:k + 4]], [hex(v) for v in l.vals[k:k + 4]])
            if l.flags & 255:
                return 'bad', 'flags %d' % (l.flags & 255), 't%d: %s' % (i, 'unwinding fails' if l.flags & 2 else 'stack misaligned' if l.flags & 1 else 'non-volatile state changed')
            if c.steps[i] and not l.flags >> 8:
                return 'bad', 'no steps', 't%d' % i
        return 'ok', '', ''
