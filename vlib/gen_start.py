"""C23, start-up: programs whose main/wmain/WinMain print what they are given, run with generated command lines and environments"""
from vlib.core import *
from vlib.diff import *

COMMON = r'''
typedef unsigned short wc;
__declspec(dllimport) void *GetStdHandle(unsigned int);
__declspec(dllimport) int WriteFile(void *h, const void *p, unsigned int n, unsigned int *done, void *o);
__declspec(dllimport) int *__p___argc(void);
__declspec(dllimport) char ***__p___argv(void);
__declspec(dllimport) wc ***__p___wargv(void);
#pragma comment(lib, "kernel32")
static char buf[1 << 20]; static unsigned int at;
static void ch(int c) { if (at < sizeof(buf)) buf[at++] = (char)c; }
static void txt(char *s) { while (*s) ch(*s++); }
static void hex(unsigned v, int n) { while (n--) ch("0123456789abcdef"[v >> (4 * n) & 15]); }
static void num(int v) { hex((unsigned)v, 8); ch('\n'); }
static void str(char *s) { if (!s) { txt("null\n"); return; } ch('['); for (; *s; s++) hex((unsigned char)*s, 2); txt("]\n"); }
static void wstr(wc *s) { if (!s) { txt("null\n"); return; } ch('['); for (; *s; s++) hex(*s, 4); txt("]\n"); }
static void flush(void) { unsigned d; WriteFile(GetStdHandle((unsigned)-11), buf, at, &d, 0); }
static int result(char *first) { int r = 0; while (*first) r = r * 31 + (unsigned char)*first++; flush(); return r & 127; }
static int wresult(wc *first) { int r = 0; while (*first) r = r * 31 + *first++; flush(); return r & 127; }
'''
# name -> (source, is it wide, which facts are printed)
PROGRAMS = {
    'main2': 'int main(int argc, char **argv) { num(argc); for (int i = 0; i <= argc; i++) str(argv[i]); return result(argv[argc - 1]); }',
    'main2b': 'int main(int argc, char *argv[]) { num(argc); for (int i = 0; i <= argc; i++) str(argv[i]); if (argc > 1) return result(argv[argc - 1]); return result(argv[0]); }',
    'main0': 'int main(void) { int argc = *__p___argc(); char **argv = *__p___argv(); num(argc); for (int i = 0; i <= argc; i++) str(argv[i]); return result(argv[argc - 1]); }',
    'main0w': 'int main() { int argc = *__p___argc(); wc **argv = *__p___wargv(); num(argc); for (int i = 0; i <= argc; i++) wstr(argv[i]); return wresult(argv[argc - 1]); }',
    'main3': 'int main(int argc, char **argv, char **envp) { num(argc); for (int i = 0; i <= argc; i++) str(argv[i]); while (*envp) str(*envp++); return result(argv[argc - 1]); }',
    'mainfall': 'int main(int argc, char **argv) { num(argc); for (int i = 0; i <= argc; i++) str(argv[i]); result(argv[argc - 1]); }',
    'wmain2': 'int wmain(int argc, wc **argv) { num(argc); for (int i = 0; i <= argc; i++) wstr(argv[i]); return wresult(argv[argc - 1]); }',
    'wmain0': 'int wmain(void) { int argc = *__p___argc(); wc **argv = *__p___wargv(); num(argc); for (int i = 0; i <= argc; i++) wstr(argv[i]); return wresult(argv[argc - 1]); }',
    'wmain3': 'int wmain(int argc, wc **argv, wc **envp) { num(argc); for (int i = 0; i <= argc; i++) wstr(argv[i]); while (*envp) wstr(*envp++); return wresult(argv[argc - 1]); }',
    'WinMain': 'typedef struct HINSTANCE__ *HINSTANCE; __declspec(dllimport) HINSTANCE GetModuleHandleA(char *); int WinMain(HINSTANCE inst, HINSTANCE prev, char *cmd, int show) { num(inst == GetModuleHandleA(0)); num(prev == 0); str(cmd); num(show); return result(cmd); }',
    'wWinMain': 'typedef struct HINSTANCE__ *HINSTANCE; __declspec(dllimport) HINSTANCE GetModuleHandleW(wc *); int wWinMain(HINSTANCE inst, HINSTANCE prev, wc *cmd, int show) { num(inst == GetModuleHandleW(0)); num(prev == 0); wstr(cmd); num(show); return wresult(cmd); }',
}


def split_command_line(s):
    """the arguments a command line denotes by the rules of the Microsoft C runtime; also where the program name ends"""
    i, name, quoted = 0, '', False
    while i < len(s) and (quoted or s[i] not in ' \t'):
        if s[i] == '"':
            quoted = not quoted
        else:
            name += s[i]
        i += 1
    args, end = [name], i
    n = len(s)
    while True:
        while i < n and s[i] in ' \t':
            i += 1
        if i >= n:
            return args, end
        a, quoted = '', False
        while True:
            b = 0
            while i < n and s[i] == '\\':
                b, i = b + 1, i + 1
            copy = True
            if i < n and s[i] == '"':
                if b % 2 == 0:
                    if quoted and i + 1 < n and s[i + 1] == '"':
                        i += 1
                    else:
                        copy, quoted = False, not quoted
                b //= 2
            a += '\\' * b
            if i >= n or (not quoted and s[i] in ' \t'):
                break
            if copy:
                a += s[i]
            i += 1
        args.append(a)


def enc(s, wide):
    if wide:
        return '[%s]' % ''.join('%04x' % (int.from_bytes(c.encode('utf-16-le'), 'little')) for c in s)
    return '[%s]' % s.encode('utf-8').hex()


def gen_arg(ch):
    pieces = ['"', '"', '\\', '\\', '\\\\', '\\"', '""', ' ', '\t', 'a', 'bc', 'x=1', '-', '/o', ':', '*', '?', "'", '%PATH%', '\v', '\f', 'é', 'ß', '\u20ac', '^&|<>', ';', '@f', '\\\\"', '\\\\\\"', '"" ', ' "', '\x01', '\x7f']
    return ''.join(ch.of(pieces) for _ in range(ch.weighted([(1, 0), (3, 1), (3, 2), (4, 4), (3, 8), (1, 20)])))


class StartWorker(GenWorker):
    SDK = True

    def setup(self):
        for name, text in PROGRAMS.items():
            self.px.write('p_%s.c' % name, COMMON + text + '\n')
        self.built = {}

    def exe(self, name):
        if name not in self.built:
            if not hasattr(self, '_ready'):
                self.setup()
                self._ready = True
            r = self.px.hlc(['/quiet', '/no_debug', 'p_%s.c' % name, '/out:p_%s.exe' % name])
            self.built[name] = None if r.status == 0 and not r.abnormal else 'status %s\n%s' % (r.status, r.text)
        return self.built[name]

    built = {}

    def gen(self, ch):
        name = ch.of(sorted(PROGRAMS))
        prog = ch.of(['p.exe', 'C:\\dir\\p.exe', '"C:\\a dir\\p.exe"', '"p.exe"', 'p', '"a b"c', './x', '"C:\\x y"\\p.exe', 'a"b c"d'])
        n = ch.weighted([(1, 0), (3, 1), (3, 2), (3, 4), (1, 9), (1, 40)])
        line = prog
        for _ in range(n):
            line += ch.of([' ', ' ', ' ', '\t', '  ', ' \t ']) + gen_arg(ch)
        if ch.chance(1, 4):
            line += ch.of([' ', '\t', '  '])
        env = []
        if name.endswith('3') or ch.chance(1, 8):
            for _ in range(ch.n(5)):
                env.append(ch.of(['=C:=C:\\x', '=::=::\\', 'A=1', 'PATH=C:\\a;D:\\b c', 'EMPTY=', 'X=é', 'Q="q"', '=ExitCode=00000001', 'L=' + 'l' * 300]))
        show = ch.of([-1, -1, 0, 1, 3, 7])
        return GCase(json.dumps([name, line, env, show]), {'program.c': COMMON + PROGRAMS[name] + '\n', 'command-line.json': json.dumps({'command line': line, 'environment': env, 'show': show})},
                     n > 0, (name,), (name, line, env, show))

    def model(self, name, line, env, show):
        wide = name[0] == 'w' or name == 'main0w'
        args, end = split_command_line(line)
        out = []
        if 'WinMain' in name:
            cmd = line[end:].lstrip(' \t')
            out = ['00000001', '00000001', enc(cmd, wide), '%08x' % (show if show >= 0 else 10)]
            last = cmd
        else:
            out = ['%08x' % len(args)] + [enc(a, wide) for a in args] + ['null']
            if name.endswith('3'):
                out += [enc(e, wide) for e in env if not e.startswith('=')]
            last = args[-1]
        r = 0
        for c in (last if wide else last.encode('utf-8')):
            r = (r * 31 + (ord(c) if wide else c)) & 0x7fffffff
        return '\n'.join(out) + '\n', 0 if name == 'mainfall' else r & 127

    def judge(self, case):
        name, line, env, show = case.data
        err = self.exe(name)
        if err:
            return 'bad', 'a program with the entry function %s does not compile' % name, err
        r = self.px.exe_run(self.px.path('p_%s.exe' % name), line.encode('utf-8').decode('latin-1'), ['env:' + e.encode('utf-8').decode('latin-1') for e in env] + (['show=%d' % show] if show >= 0 else []))
        want, status = self.model(name, line, env, show)
        got = r.out.decode('latin-1')
        if got != want or r.status != status:
            return 'bad', '%s is not given what its command line denotes' % name.rstrip('0123b'), 'command line %r, environment %r\nexpected status %d and\n%s\ngot status %s and\n%s' % (line, env, status, want, r.status, got)
        return 'ok', '', ''
