"""C09: the preprocessor."""
import os, re
from .core import *
from .diff import *

TOKEN = re.compile(r'''\s*(?:(?P<s>(?:u8|u|U|L)?"(?:[^"\\\n]|\\.)*"|(?:u|U|L)?'(?:[^'\\\n]|\\.)*')|(?P<n>\.?[0-9](?:[eEpP][+-]|[A-Za-z0-9_.])*)|(?P<i>[A-Za-z_$\x80-\xff][A-Za-z0-9_$\x80-\xff]*)|(?P<p>\.\.\.|<<=|>>=|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||\*=|/=|%=|\+=|-=|&=|\^=|\|=|\#\#|.))''', re.X)


def tokens(t):
    t = re.sub(r'(?m)^[ \t]*#[ \t]*(line|pragma|\d).*$', '', t)
    out = []
    p = 0
    t = t.rstrip()
    while p < len(t):
        m = TOKEN.match(t, p)
        if not m:
            break
        out.append(m.group(m.lastgroup))
        p = m.end()
    return out


PLAIN = ['a', 'b', 'c', 'foo', 'bar', 'int', 'x1', 'if', '_z', 'defined_', 'L', 'u8', 'R']
NUMS = ['0', '1', '2', '42', '0x1F', '1e5', '077', '10ull', '0b101', '0xeull', '0x1p3', '1u']
STRS = ['"s"', '"a b"', '"\\n"', '"q\\"q"', '""', "'c'", "'\\''", "'\"'", 'L"w"', "L'x'", '"/*no*/"', '"//no"', '"a\\\\b"', 'u8"t"', "'\\\\'", '"tab\\t"', '"#"', '"x y  z"']
PUNCT = ['+', '-', '*', '/', '%', '&', '|', '^', '~', '!', '<', '>', '=', ';', ':', '?', '[', ']', '{', '}', '==', '!=', '<=', '>=', '&&', '||', '<<', '>>', '->', '++', '--', '+=', '-=', '<<=', '>>=', '&=', '|=', '^=', '*=', '/=', '%=']
OBJ = ['A', 'B', 'C', 'D', 'E', 'Q']
FUN = ['F', 'G', 'H', 'I', 'J', 'K']
PAR = ['x', 'y', 'z', 'w']


class PP:
    def __init__(self, ch):
        self.ch = ch
        self.tags = set()
        self.defs = {}        # name -> None (object-like) or number of parameters, -n-1: variadic with n named
        self.heads = {}
        self.lines = 0
        self.uses = 0

    def ws(self):
        k = self.ch.n(24)
        if k < 20:
            return ' '
        if k == 20:
            return '  '
        if k == 21:
            self.tags.add('comment')
            return self.ch.of(['/* c */', '/**/', ' /* A F(1) "x */ ', '/* * / */', '/***/', '/*/*/'])
        if k == 22:
            self.tags.add('line splice')
            return ' \\\n '
        return '\t'

    def name(self):
        ch = self.ch
        k = ch.n(10)
        if k < 3:
            return ch.of(OBJ)
        if k < 4:
            return ch.of(FUN)
        return ch.of(PLAIN)

    def tok(self):
        ch = self.ch
        k = ch.n(12)
        if k < 5:
            return self.name()
        if k < 7:
            return ch.of(NUMS)
        if k < 8:
            return ch.of(STRS)
        if k < 9:
            return ','
        return ch.of(PUNCT)

    # ---- replacement lists
    def replacement(self, params, va):
        ch = self.ch
        names = params + (['__VA_ARGS__'] if va else [])
        out = []
        for _ in range(ch.n(7)):
            k = ch.n(16)
            if names and k < 5:
                out.append(ch.of(names))
            elif names and k < 7:
                out.append('#' + ch.of(['', '', ' ', '  ']) + ch.of(names))
                self.tags.add('stringize')
            elif k < 10:
                # pasting: operands which form a token whatever the arguments are like
                self.tags.add('paste')
                a = ch.of(names + ['a', 'F', 'A', 'x']) if names else ch.of(['a', 'F', 'A'])
                b = ch.of(params + ['1', 'b', 'A', '_']) if names else ch.of(['b', 'A', '1', '_2'])
                sp = ch.of([' ## ', '##', '## ', ' ##'])
                out.append(a + sp + b)
                if ch.n(4) == 0:
                    out.append('## ' + ch.of(params + ['7', 'q']) if names else '##q')
            elif k < 12:
                out.append(self.invoke(0, names))
            else:
                out.append(self.tok())
        s = ''
        for i, t in enumerate(out):
            if i and (t.startswith('##') or ch.n(5)):
                s += self.ws()
            elif i:
                s += ' ' if needs_space(s, t) else ''
            s += t
        return s

    def define(self):
        ch = self.ch
        if ch.n(2) == 0:
            nm = ch.of(OBJ)
            self.defs[nm] = None
            body = self.replacement([], False)
            return '#%sdefine%s%s%s%s' % (ch.of(['', '', '', ' ']), ch.of([' ', ' ', '  ', '\t', ' /**/ ']), nm, ' ' if body else '', body)
        nm = ch.of(FUN)
        n = ch.n(4)
        va = ch.n(4) == 3
        ps = PAR[:n]
        if ch.n(8) == 7:
            ps = ch.shuffle(ps + []) or ps
        self.defs[nm] = -n - 1 if va else n
        if va:
            self.tags.add('variadic')
        pl = (', ' if ch.n(2) else ',').join(ps + (['...'] if va else []))
        if ch.n(6) == 5:
            pl = ' ' + pl + ' '
        body = self.replacement(ps, va)
        self.tags.add('function-like')
        return '#define %s(%s)%s%s' % (nm, pl, ch.of([' ', ' ', '']) if body else '', body) if not body or not (body[0].isalnum() or body[0] in '_') or 1 else ''

    def arg(self, d, names=()):
        ch = self.ch
        out = []
        for _ in range(ch.of([0, 1, 1, 1, 2, 3])):
            k = ch.n(12)
            if k < 2 and d > 0:
                out.append(self.invoke(d - 1, names))
            elif k == 2:
                out.append('(' + self.ws() + self.tok() + ',' + self.tok() + ')')
            elif names and k < 6:
                out.append(ch.of(list(names)))
            else:
                t = self.tok()
                out.append(t if t != ',' else 'b')
        s = ''
        for i, t in enumerate(out):
            s += (self.ws() if i else '') + t
        if ch.n(6) == 5:
            s = ' ' + s + ' '
        return s

    def invoke(self, d, names=()):
        ch = self.ch
        nm = ch.of(FUN)
        n = self.defs.get(nm)
        if n is None:
            n = ch.n(3)
        cnt = n if n >= 0 else -n - 1 + ch.n(3)
        if n < 0 and cnt == 0:
            cnt = ch.n(2)
        args = [self.arg(d, names) for _ in range(cnt)]
        self.uses += 1
        return nm + ch.of(['', '', '', ' ', '/**/']) + '(' + ','.join(args) + ')'

    def text(self):
        ch = self.ch
        out = []
        for _ in range(ch.r(1, 5)):
            k = ch.n(10)
            if k < 5:
                out.append(self.invoke(2))
            elif k == 5:
                # arguments over several lines
                self.tags.add('arguments over several lines')
                nm = ch.of(FUN)
                n = self.defs.get(nm) or 0
                n = n if n >= 0 else 2
                out.append(nm + '(' + '\n,\n'.join(self.arg(1) for _ in range(n)) + '\n)')
            elif k == 6:
                # a call formed by the text that follows
                out.append('%s (%s)' % (ch.of(OBJ + FUN), ', '.join(self.arg(1) for _ in range(ch.n(3)))))
                self.uses += 1
            else:
                out.append(self.tok())
        s = ''
        for i, t in enumerate(out):
            s += (self.ws() if i else '') + t
        if ch.n(12) == 11:
            s += ' // F(1) A "unterminated \\'[:-1 if ch.n(2) == 0 else -2]
            self.tags.add('comment')
        k = ch.n(12)
        if k == 11:
            self.tags.add('name at the end of a line')
            return s + ' ' + ch.of(FUN)
        if k == 10:
            self.tags.add('stringized expansion')
            return 'XSTR(' + s + ')' if '//' not in s else s
        return s + (' ;' if k else ';')

    def cond(self):
        ch = self.ch
        m = ch.of(OBJ + FUN)
        return ch.of(['#ifdef %s', '#ifndef %s', '#if defined %s', '#if defined(%s)', '#if !defined ( %s )', '#if defined(%s) && 1', '#if 1 || defined(%s)', '#if 0 && UNDEF_%s', '#if 1 /* %s */', '#if 0 // %s',
                      '#if %s_U', '#if __LINE__ > 0 || %s_U', '#if (defined %s ? 1 : 0)', '#if -1 > 0u ? defined(%s) : 0', '#if NUM + 1 == 4 && defined %s', '#if !FNUM(NUM - 3) && FNUM(1) + defined(%s)', '#if \'a\' == 97 && !defined(%s)', '#if 0x10 == 16 && defined %s']) % m

    def block(self, d):
        ch = self.ch
        out = []
        for _ in range(ch.r(1, 6)):
            self.lines += 1
            k = ch.n(20)
            if k < 6:
                out.append(self.define())
            elif k < 12:
                out.append(self.text())
            elif k < 13:
                nm = ch.of(OBJ + FUN)
                out.append('#undef ' + nm)
                self.tags.add('#undef')
            elif k < 17 and d > 0:
                self.tags.add('conditional')
                saved = dict(self.defs)
                s = [self.cond()] + self.block(d - 1)
                for _ in range(ch.n(3)):
                    s += [self.cond().replace('#ifdef ', '#elif defined ').replace('#ifndef ', '#elif !defined ').replace('#if', '#elif')] + self.block(d - 1)
                if ch.n(2):
                    s += [ch.of(['#else', '#else // x', '# else'])] + self.block(d - 1)
                s.append(ch.of(['#endif', '#endif /* x */', '#  endif']))
                out += s
            elif k == 17 and d > 0:
                self.tags.add('skipped group')
                out += ['#if 0', ch.of(["text 'unbalanced is fine'", '#error no', '#include "missing.h"', '#define A wrong', '#garbage', '#if nonsense ( + 1\n#endif', '# 12', '#if 1\n#else junk\n#endif', '"str /*" x /* comment\n#endif in comment */', '#pragma nothing', '#elif_ 3']), '#endif']
            elif k == 18:
                self.tags.add('#include')
                out.append(self.include(d))
            else:
                out.append(ch.of(['#', '# /* nothing */', '# /* nothing */', '__LINE__', 'FILE_ __LINE__ ;', '__FILE__', 'LN(__LINE__)', 'LN2', '', '/* long\n comment */ __LINE__', '\\\n__LINE__', 'NUM', 'XSTR(A) XSTR(F(1)) STR(A)', 'XSTR( a   b )', 'STR("\\n" \'\\0\')', 'CATX(A, 1) CATX(,) CATX(1,2)', 'VAR(,) VAR() VAR(1) VAR(1,2,3)',
                                     'STR(@) STR($) ', '1.5 .5f 3. 1.5e3 1e+5 0x1.8p-3 STR(1.5e+3 .5)', 'LPAREN_ STR((a,b))', 'GV(1) GV(1,2) GV(1,2,3) GV(A, B) GV(,1)']))
        return out

    def include(self, d):
        ch = self.ch
        n = 'h%d.h' % ch.n(3)
        if n not in self.heads:
            self.heads[n] = None
            g = ch.n(4)
            body = self.block(max(d - 1, 0)) if len(self.heads) < 4 else ['a']
            if g == 0:
                body = ['#pragma once'] + body
            elif g == 1:
                body = ['#ifndef GUARD_' + n[:2], '#define GUARD_' + n[:2]] + body + ['#endif']
            else:
                body = ['#ifdef DEPTH2', '#else', '#ifdef DEPTH1', '#define DEPTH2', '#else', '#define DEPTH1', '#endif'] + body + ['#endif']
            self.heads[n] = '\n'.join(body) + ch.of(['\n', '\n', ''])
        return ch.of(['#include "%s"', '#include "%s"', '#include "%s" // x', '#include <%s>', '#define INC_ "%s"\n#include INC_', '#  include "%s"', '#include/**/"%s"', '#if __has_include("%s")\n#include "%s"\n#endif' % (n, '%s'), '#if __has_include(<%s>)\nyes\n#endif', '#define SYS_ <%s>\n#include SYS_']) % n

    def make(self):
        ch = self.ch
        pre = ['#define NUM 3', '#define FNUM(x) (x)', '#define LN(x) x __LINE__', '#define LN2 LN(__LINE__)', '#define FILE_ __FILE__', '#define STR(...) #__VA_ARGS__', '#define XSTR(...) STR(__VA_ARGS__)', '#define CATX(a, b) CAT_(a, b)', '#define CAT_(a, b) a ## b', '#define VAR(...) [__VA_ARGS__] V2(__VA_ARGS__, e)', '#define V2(a, ...) a:__VA_ARGS__', '#define GV(x, ...) [x, ## __VA_ARGS__]', '#define LPAREN_ (']
        body = self.block(2)
        for _ in range(ch.n(4)):
            body += self.block(2)
        src = '\n'.join(pre + body) + ch.of(['\n', '\n', '', '\n\n'])
        heads = {k: v for k, v in self.heads.items() if v is not None}
        nl = '\r\n' if ch.n(6) == 5 else '\n'
        if nl != '\n':
            self.tags.add('CRLF')
            src = src.replace('\n', nl)
        fl = dict(heads, **{'p.c': src})
        return GCase(src + ''.join(heads.values()), fl, self.uses >= 2 and len(self.defs) >= 1, sorted(self.tags))


def needs_space(a, b):
    x, y = a[-1], b[0]
    if (x.isalnum() or x in '_$.') and (y.isalnum() or y in '_.$"\''):
        return True
    return x in PUNCT_CH and y in PUNCT_CH or x == '#' or y == '#'


PUNCT_CH = set('+-*/%&|^<>=!.:?#')


class PPWorker(GenWorker):
    line_shrink = True
    max_shrink_s = 25

    def gen(self, ch):
        return PP(ch).make()

    def judge(self, c):
        px = self.px
        for k, v in c.fl.items():
            px.write(k, v)
        for k in ('h0.h', 'h1.h', 'h2.h'):
            if k not in c.fl and os.path.exists(px.path(k)):
                os.unlink(px.path(k))
        r = run([CLANG, '--target=x86_64-pc-windows-msvc', '-E', '-P', '-std=gnu11', '-fno-ms-compatibility', '-fno-ms-extensions', '-w', '-ffreestanding', '-nostdinc', '-I.', '-x', 'c', 'p.c'], cwd=px.dir)
        if r.returncode:
            return 'discard', 'reference rejects', r.stdout.decode('latin-1')
        a = tokens(r.stdout.decode('latin-1').replace('\r', ''))
        h = px.hlc(['/P', '/Fi', 'x.i', '/no_stdlib', '/quiet', 'p.c', '/I', '.'])
        if h.abnormal:
            return 'bad', 'hlc fails: ' + h.abnormal, h.text[-1500:]
        if h.status:
            return 'bad', 'hlc rejects a valid program', h.text[-1500:]
        b = tokens(open(px.path('x.i'), 'rb').read().decode('latin-1').replace('\r', ''))
        a, b = [self.norm(x) for x in a], [self.norm(x) for x in b]
        if a != b:
            i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
            return 'bad', 'different tokens', 'token %d\nreference: %s\nhlc:       %s\n%s' % (i, ' '.join(a[max(0, i - 6):i + 8]), ' '.join(b[max(0, i - 6):i + 8]), '')
        return 'ok', '', ''

    @staticmethod
    def norm(t):
        m = re.match(r'"(?:Z:|\.)?[^"]*?([a-z0-9]+\.[ch])"$', t)
        if m:
            return '"%s"' % m.group(1)
        # whether white space next to an empty expansion survives in a stringized argument is not specified exactly:
        # white space counts where it separates two words
        return re.sub(r' +', lambda m: ' ' if WORD.match(t[m.start() - 1:m.start()]) and WORD.match(t[m.end():m.end() + 1]) else '', t) if t[-1] == '"' else t


WORD = re.compile(r'\w')
