"""C23, options: command lines of random options in random order and spelling, compared with a model of their documented effects"""
import shutil
import struct
from vlib.core import *
from vlib.diff import *

# canonical names (for the rule that a joined short option must not be spelled like another option)
CANON = set('help h ? nostdlib nopredefines nodebug nodynamicbase imagebase showincludes subsystem out o fe fo entry noentry dll ld ldd obj c threadcount mp i libpath d wall wnone w wno wd incremental mf l quiet nologo ep p fi md mdd mt mtd std warninglimit errorlimit syntaxcheck zs reportwarningsinsystemincludes dontprintthefiles seed ignore link warning warnings'.split())
NAMES = {   # option: spellings, short spellings that may be joined with their argument
    'out': (['out', 'o', 'Fe', 'Fo'], ['o', 'Fe', 'Fo']),
    'I': (['I'], ['I']), 'LIBPATH': (['LIBPATH'], []), 'D': (['D'], ['D']), 'l': (['l'], ['l']),
    'entry': (['entry'], []), 'no_entry': (['no_entry'], []), 'dll': (['dll', 'LD', 'LDd'], []), 'obj': (['obj', 'c'], []),
    'image_base': (['image_base'], []), 'no_dynamic_base': (['no_dynamic_base'], []), 'subsystem': (['subsystem'], []),
    'no_debug': (['no_debug'], []), 'quiet': (['quiet', 'no_logo'], []), 'seed': (['seed'], []), 'thread_count': (['thread_count'], []),
    'MP': (['MP'], []), 'std': (['std'], ['std']), 'MD': (['MD'], []), 'MDd': (['MDd'], []), 'MT': (['MT'], []), 'MTd': (['MTd'], []),
    'Wall': (['Wall'], []), 'Wnone': (['Wnone'], []), 'W': (['W'], ['W']), 'Wno': (['Wno', 'wd'], ['wd']), 'MF': (['MF'], ['MF']), 'incremental': (['incremental'], []),
    'ignore': (['ignore'], []), 'link': (['link'], []), 'no_predefines': (['no_predefines'], []), 'no_stdlib': (['no_stdlib'], []), 'error_limit': (['error_limit'], []),
    'warning_limit': (['warning_limit'], []), 'report': (['report_warnings_in_system_includes'], []), 'show_includes': (['show_includes'], []), 'Zs': (['syntax_check', 'Zs'], []),
    'files': (['dont_print_the_files'], []),
}
SHORT_PREFIXES = ['h', '?', 'out', 'o', 'Fe', 'Fo', 'I', 'D', 'W', 'wd', 'MF', 'l', 'Fi', 'std']
MACROS = ['AB', 'Value', 'x_1', 'NAME', '_Q9', 'ZED', 'n0', 'Gamma']
VALUES = ['1', '42', '0x1F', 'abc', '(1+2)', 'a b', '"s t"', "'c'", '', '-1', 'x=y', '1:2', 'a,b', 'f(x)', '1 + /* c */ 2', 'AB', 'é']
ENTRIES = {'_start': 'int _start(void) { use(); return 11; }', 'main': 'int main(int argc, char **argv) { use(); return 22; }', 'wmain': 'int wmain(int argc, unsigned short **argv) { use(); return 33; }',
           'WinMain': 'typedef struct HINSTANCE__ *HINSTANCE; int WinMain(HINSTANCE a, HINSTANCE b, char *c, int d) { use(); return 44; }',
           'wWinMain': 'typedef struct HINSTANCE__ *HINSTANCE; int wWinMain(HINSTANCE a, HINSTANCE b, unsigned short *c, int d) { use(); return 55; }',
           'DllMain': 'int DllMain(void *a, unsigned b, void *c) { use(); return 1; }', 'go': 'int go(void) { use(); return 66; }', 'efi_main': 'int efi_main(void *a, void *b) { use(); return 77; }', 'EfiMain': 'int EfiMain(void *a, void *b) { use(); return 77; }'}
EXIT = {'_start': 11, 'main': 22, 'wmain': 33, 'WinMain': 44, 'wWinMain': 55, 'go': 66}
SUBSYSTEMS = {'console': 3, 'windows': 2, 'efi_application': 10}


def spell_name(ch, name):
    s = ''.join(c.upper() if ch.chance(1, 4) else c for c in name) if ch.chance(1, 3) and len(name) > 1 else name
    if ch.chance(1, 3) and len(name) > 2:
        i = 1 + ch.n(len(s) - 1)
        s = s[:i] + ch.of(['-', '_']) + s[i:]
    if ch.chance(1, 5):
        s = s.replace('_', ch.of(['', '-']))
    return s


def canon(tok):
    r = ''
    for c in tok:
        if c in '-_':
            continue
        if c in '=: ':
            break
        r += c.lower() if c.isalpha() else c
    return r


def spell(ch, opt, arg=None):
    """the arguments that spell an option"""
    names, joined = NAMES[opt]
    pre = ch.of(['/', '-', '--'])
    name = ch.of(names)
    if arg is None:
        return [pre + spell_name(ch, name)]
    forms = ['sep', 'sep']
    if arg:
        forms += ['=', ':']
    if name in joined and arg and canon(name + arg) not in CANON and arg[0] not in '=: -_' and not (name == 'o' and arg.startswith('ut')):
        forms += ['join', 'join']
    f = ch.of(forms)
    if f == 'sep':
        return [pre + spell_name(ch, name), arg]
    if f == 'join':
        return [pre + name + arg]
    return [pre + spell_name(ch, name) + f + arg]


def pe_facts(data):
    if data[:2] != b'MZ':
        return None
    o = struct.unpack_from('<I', data, 60)[0]
    assert data[o:o + 4] == b'PE\0\0'
    chars = struct.unpack_from('<H', data, o + 22)[0]
    h = o + 24
    entry = struct.unpack_from('<I', data, h + 16)[0]
    base = struct.unpack_from('<Q', data, h + 24)[0]
    subsystem, dllchars = struct.unpack_from('<HH', data, h + 68)
    return dict(dll=bool(chars & 0x2000), stripped=bool(chars & 1), entry=bool(entry), base=base, subsystem=subsystem, dynamic=bool(dllchars & 0x40))


class CliWorker(GenWorker):
    SDK = True
    n_case = 0

    def gen(self, ch):
        opts = []           # (option, argument)
        kind = ch.weighted([(4, '_start'), (3, 'main'), (1, 'wmain'), (2, 'WinMain'), (1, 'wWinMain'), (2, 'DllMain'), (3, 'go'), (2, 'none'), (1, 'efi_main'), (1, 'EfiMain')])
        names = ch.shuffle(['a', 'b1', 'my prog', 'x.y', 'w1', 'w2', 'Zeta'])
        nfiles = ch.weighted([(4, 1), (2, 2), (1, 3)])
        files = [n + '.c' for n in names[:nfiles]]
        # what is to be built
        target = ch.weighted([(5, 'exe'), (3, 'dll'), (2, 'obj')])
        if kind in ('DllMain',):
            target = ch.of(['dll', 'dll', 'obj'])
        if kind == 'none':
            target = ch.of(['dll', 'obj'])
        if kind in ('efi_main', 'EfiMain'):
            target = ch.of(['efi', 'efi', 'obj'])
        ext = {'exe': '.exe', 'dll': '.dll', 'obj': '.obj', 'efi': '.efi'}[target]
        outdir, outname = '', os.path.splitext(files[0])[0]
        form = ch.of(['none', 'plain', 'ext', 'dir', 'dir/', 'dir/name', 'dir/name.ext', 'odd'])
        by_ext = False
        name = ch.of(['res', 'Out put', 'r-1', 'deep_name'])
        if form == 'plain':
            out, outname = name, name
        elif form == 'ext':
            out, outname, by_ext = name + ext, name, True
        elif form == 'dir':
            out, outdir = 'sub', 'sub'
        elif form == 'dir/':
            out, outdir = ch.of(['sub/', 'sub\\', './sub/', 'sub/../sub/']), 'sub'
        elif form == 'dir/name':
            out, outdir, outname = ch.of(['sub/', 'sub\\', './sub/']) + name, 'sub', name
        elif form == 'dir/name.ext':
            out, outdir, outname, by_ext = 'sub/' + name + ext, 'sub', name, True
        elif form == 'odd':
            out, outname = name + '.bin', name
        outfile = os.path.join(outdir, outname + ('.bin' if form == 'odd' else ext))
        if form != 'none':
            opts.append(('out', out))
        # the default name of x.y.c is x.y, which has an extension
        if form in ('none', 'dir', 'dir/') and '.' in outname:
            files[0], outname = 'xy.c', 'xy'
            outfile = os.path.join(outdir, outname + ext)
        entry = None
        # options that make it what it is to be
        if target == 'obj':
            if not by_ext or ch.chance(1, 3):
                opts.append(('obj', None))
        elif target == 'dll':
            how = ch.of(['dll', 'dll', 'no_entry', 'both'])
            if by_ext and ch.chance(1, 2):
                how = ch.of(['', 'no_entry'])
            if kind in ('DllMain',) and how == 'no_entry' and not by_ext:
                how = 'dll'
            if 'dll' in how or how == 'both':
                opts.append(('dll', None))
            if how in ('no_entry', 'both'):
                opts.append(('no_entry', None))
                entry = ''
            if entry is None and kind == 'go' and ch.chance(1, 2):
                opts.append(('entry', 'go'))
                entry = 'go'
        elif target == 'efi':
            if not by_ext:
                opts.append(('subsystem', 'efi_application'))
        else:
            if kind == 'go':
                opts.append(('entry', 'go'))
                entry = 'go'
            elif kind == '_start' and ch.chance(1, 4):
                opts.append(('entry', '_start'))
        sub = 10 if target == 'efi' else 2 if target == 'dll' or kind in ('WinMain', 'wWinMain') else 3
        if target == 'exe' and ch.chance(1, 4):
            if entry == 'go' and ch.chance(1, 2):
                sub = 2
                opts.append(('subsystem', 'windows'))
            else:
                opts.append(('subsystem', 'windows' if sub == 2 else 'console'))
        if entry is None and target != 'obj':
            entry = kind if (target == 'exe' or target == 'efi' or kind == 'DllMain') else ''
        base = {'exe': 0x140000000, 'dll': 0x180000000, 'efi': None, 'obj': None}[target]
        if target != 'obj':
            for _ in range(ch.weighted([(5, 0), (3, 1), (1, 2)])):
                base = ch.of([0x10000 * (1 + ch.n(0x7000)), 0x200000000, 0x7ff600000000, 0x140000000, 0x400000])
                opts.append(('image_base', ch.of(['%d', '0x%x', '0x%X']) % base))
        dyn = True
        if target in ('exe', 'dll') and ch.chance(1, 4):
            dyn = False
            opts.append(('no_dynamic_base', None))
        nodebug = ch.chance(1, 2)
        if nodebug:
            opts.append(('no_debug', None))
        # preprocessor
        defs = {}
        for m in MACROS:
            if ch.chance(1, 4):
                v = ch.of(VALUES)
                f = ch.of(['', '=', '=', '='])
                if not f:
                    v = '1'
                defs[m] = v
                opts.append(('D', m + (f + v if f else '')))
        dirs = [d for d in ch.shuffle(['i0', 'i1', 'i 2']) if ch.chance(1, 2)]
        std = None
        if ch.chance(1, 4):
            std = ch.of(['c99', 'c11', 'c17', 'c23', 'clatest', 'C11'])
            opts.append(('std', std))
        md = None
        if ch.chance(1, 4):
            md = ch.of(['MD', 'MDd', 'MT', 'MTd'])
            opts.append((md, None))
        # a library
        lib = None
        if target != 'obj' and ch.chance(1, 3):
            lib = ch.of(['l', 'l', 'lib', 'path', 'l.lib'])
            if lib != 'path':
                opts.append(('LIBPATH', 'libs'))
            if lib == 'l':
                opts.append(('l', 'mine'))
            elif lib == 'l.lib':
                opts.append(('l', 'mine.lib'))
        # options without an effect on the result
        for o in ('quiet', 'link', 'report', 'Wall', 'Wnone'):
            if ch.chance(1, 7):
                opts.append((o, None))
        for o, vs in (('seed', ['1', '7', '12345', '0x10']), ('thread_count', ['1', '2', '4', '8']), ('W', ['unused_local_variable', 'Type-Mismatch', '9']), ('Wno', ['unused_local_variable', 'type_mismatch', '19']), ('MF', ['x.dep']),
                      ('incremental', ['no', 'yes', 'No']), ('ignore', ['cl.exe']), ('error_limit', ['3']), ('warning_limit', ['2', '0x20'])):
            if ch.chance(1, 9):
                opts.append((o, ch.of(vs)))
        if not any(o == 'thread_count' for o, _ in opts) and ch.chance(1, 12):
            opts.append(('MP', None))
        unknown = ''
        error = None
        x = ch.weighted([(12, ''), (3, 'unknown'), (5, 'error')])
        extra_tail = []
        if x == 'unknown':
            unknown = ch.of(['Zi', 'GS', 'zzz', 'permissive', 'nonsense:5', 'utf8', 'EHsc', 'Brepro'])
        elif x == 'error':
            error = ch.of(['no files', 'missing file', 'dll+obj', 'entry+no_entry', 'MD+MT', 'threads+MP', 'missing argument', 'number', 'enum', 'exe input', 'missing entry', 'no command file', 'missing library', 'too many threads', 'obj input', 'empty define', 'std'])
            if error == 'dll+obj':
                opts += [('dll', None), ('obj', None)]
            elif error == 'entry+no_entry':
                opts = [o for o in opts if o[0] not in ('dll', 'obj')]
                opts += [('entry', 'go'), ('no_entry', None)]
            elif error == 'MD+MT':
                opts += [(o, None) for o in ch.shuffle(['MD', 'MDd', 'MT', 'MTd'])[:2] if o != md]
                if sum(o in ('MD', 'MDd', 'MT', 'MTd') for o, _ in opts) < 2:
                    opts = [o for o in opts if o[0] != md] + [('MD', None), ('MTd', None)]
            elif error == 'threads+MP':
                opts = [o for o in opts if o[0] not in ('thread_count', 'MP')] + [('thread_count', '2'), ('MP', None)]
            elif error == 'too many threads':
                opts = [o for o in opts if o[0] not in ('thread_count', 'MP')] + [('thread_count', '99999')]
            elif error == 'number':
                opts.append((ch.of(['image_base', 'seed', 'thread_count', 'error_limit']), ch.of(['abc', '12x', '0b1', 'five', '-1'])))
            elif error == 'enum':
                opts.append(('subsystem', ch.of(['consol', 'native', 'gui', 'window'])))
            elif error == 'std':
                opts.append(('std', ch.of(['c98', 'gnu11', 'c++'])))
            elif error == 'empty define':
                opts.append(('D', ch.of(['=5', '=', '#x'])))
            elif error == 'missing argument':
                extra_tail = [ch.of(['/', '-']) + ch.of(['out', 'entry', 'image_base', 'D', 'I', 'l', 'std', 'subsystem', 'Fe', 'o', 'LIBPATH', 'seed'])]
            elif error == 'missing entry' and (target != 'exe' or kind != 'go'):
                error = 'missing file'
            if error == 'missing library' and target == 'obj':
                error = 'no files'
            if error == 'missing entry':
                opts = [o for o in opts if o[0] not in ('entry', 'subsystem')]
        opts = self.ordered(ch, opts)
        groups = [spell(ch, o, a) for o, a in opts] + [[f] for f in files[1:]]
        if nfiles > 1 and error is None and files[0][0] != 'w' and ch.chance(1, 4) and all(f[0] == 'w' for f in files[1:]):
            groups = [g for g in groups if g[0] not in files[1:]] + [['w*.c']]
        # the first file keeps its place before the others, the relative order of the options is kept
        mixed = list(groups[:len(opts)])
        rest = [[files[0]]] + groups[len(opts):]
        if lib in ('lib', 'path'):
            rest.append(['mine.lib' if lib == 'lib' else ch.of(['libs/mine.lib', 'libs\\mine.lib', './libs/mine.lib'])])
        if error == 'no files':
            rest = []
        elif error == 'missing file':
            rest.insert(ch.n(len(rest) + 1), [ch.of(['nope.c', 'sub/nope.c', 'nope*.c'])])
        elif error == 'exe input':
            rest.append([ch.of(['some.exe', 'some.dll'])])
        elif error == 'obj input':
            rest.append(['some.obj'])
        elif error == 'missing library':
            rest.append([ch.of(['nowhere.lib', '/lnowhere', 'libs/none.lib'])])
        dgroups = [spell(ch, 'I', d) for d in dirs]
        for part in (dgroups, rest):
            pos = 0
            for g in part:
                pos = pos + ch.n(len(mixed) - pos + 1)
                mixed.insert(pos, g)
                pos += 1
        if unknown:
            mixed.insert(ch.n(len(mixed) + 1), [ch.of(['/', '-', '--']) + unknown])
        if error == 'no command file':
            mixed.insert(ch.n(len(mixed) + 1), ['@nothing.rsp'])
        resp = None
        if not error and ch.chance(1, 5):
            a = ch.n(len(mixed) + 1)
            b = a + ch.n(len(mixed) + 1 - a)
            part = [t for g in mixed[a:b] for t in g]
            if part:
                resp = ''.join(quote(ch, t) + ch.of([' ', '\n', '\r\n', '  ', '\t', ' \n\n']) for t in part)
                mixed[a:b] = [['@args.rsp']]
        args = [t for g in mixed for t in g] + extra_tail
        inc = dirs[0] if dirs else None
        # the sources
        facts = []
        src = '#define S_(...) #__VA_ARGS__\n#define S(...) S_(__VA_ARGS__)\n'
        src += '#include <hdr.h>\n' if inc else '#define H0 none\n'
        src += 'char facts[] = "@@F;" "H0=" S(H0) ";"\n'
        facts.append('H0=' + ('none' if not inc else inc.replace(' ', '')))
        for m in MACROS:
            src += '#ifdef %s\n"%s=" S(%s) ";"\n#endif\n' % (m, m, m)
            if m in defs:
                facts.append((m, defs[m]))
        for m, v in (('__STDC_VERSION__', {None: None, 'c99': '199901L', 'c11': '201112L', 'C11': '201112L', 'c17': '201710L', 'c23': '202311L', 'clatest': '202311L'}[std]),
                     ('_MT', '1' if md else None), ('_DLL', '1' if md in ('MD', 'MDd') else None), ('_DEBUG', '1' if md in ('MDd', 'MTd') else None), ('_WIN64', '1'), ('__HLC__', '1')):
            src += '#ifdef %s\n"%s=" S(%s) ";"\n#endif\n' % (m, m, m)
            if v:
                facts.append('%s=%s' % (m, v))
        src += '"@@E";\nchar *volatile sink;\n'
        src += '__declspec(dllimport) void h_log(unsigned long long);\n' if lib or error == 'missing library' else ''
        src += 'void use(void) { sink = facts; %s}\n' % ('if (!sink) h_log(1); ' if lib or error == 'missing library' else '')
        if target in ('dll',):
            src += '__declspec(dllexport) void exported(void) { use(); }\n'
        if target == 'obj' or kind == 'none':
            src += 'void global(void) { use(); }\n'
        if kind != 'none':
            src += ENTRIES[kind] + '\n'
        fl = {files[0]: src}
        for i, f in enumerate(files[1:]):
            fl[f] = 'static int v%d(void) { return %d; }\nint other%d(void) { return v%d(); }\n' % (i, i, i, i)
        for d in ('i0', 'i1', 'i 2'):
            fl[d + '/hdr.h'] = '#define H0 %s\n' % d.replace(' ', '')
        if resp is not None:
            fl['args.rsp'] = resp
        fl['command-line.json'] = json.dumps(args)
        d = dict(args=args, target=target, outfile=outfile, pdb=not nodebug and target != 'obj', base=base, dyn=dyn, sub=sub, entry=entry, facts=facts, defs=defs, lib=lib, error=error, unknown=unknown, kind=kind)
        return GCase(json.dumps([args, resp, src]), fl, len(opts) > 1, (target, error or 'no error') + tuple(sorted(set(o for o, _ in opts))), d)

    def ordered(self, ch, opts):
        """a random order that keeps the order of the options which share their option"""
        o = ch.shuffle(list(range(len(opts))))
        res = [opts[i] for i in o]
        for name in set(x[0] for x in opts):
            vals = [x for x in opts if x[0] == name]
            it = iter(vals)
            res = [next(it) if x[0] == name else x for x in res]
        return res

    def judge(self, case):
        d = case.data
        self.n_case += 1
        cwd = os.path.join(self.px.dir, 'c%d' % self.n_case)
        os.makedirs(cwd)
        try:
            for s in ('sub', 'libs'):
                os.makedirs(os.path.join(cwd, s))
            shutil.copy(self.lib(), os.path.join(cwd, 'libs', 'mine.lib'))
            for n, t in case.fl.items():
                if n.endswith('.json'):
                    continue
                p = os.path.join(cwd, n)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'wb') as f:
                    f.write(t.encode('utf-8'))
            before = self.listing(cwd)
            r = self.px.hlc([a.encode('utf-8').decode('latin-1') for a in d['args']], cwd=cwd)
            return self.verdict(d, r, cwd, self.listing(cwd) - before)
        finally:
            shutil.rmtree(cwd)

    def lib(self):
        return os.path.join(BUILD, 'harness6.lib')

    def listing(self, cwd):
        return set(os.path.relpath(os.path.join(p, f), cwd) for p, _, fs in os.walk(cwd) for f in fs) - {'.out'}

    def verdict(self, d, r, cwd, new):
        show = 'hlc %s\nstatus %s\n%s' % (d['args'], r.status, r.text[-1500:])
        if r.abnormal and not (d['error'] and r.status == 2):
            return 'bad', 'the compiler fails on a combination of options: ' + str(r.abnormal)[:60], show
        if d['error']:
            if r.status not in (1, 2):
                return 'bad', 'an error in the command line (%s) ends with status %s' % (d['error'], r.status), show
            if 'rror' not in r.text:
                return 'bad', 'an error in the command line (%s) is not reported' % d['error'], show
            if new:
                return 'bad', 'an error in the command line (%s) leaves an output file' % d['error'], show + '\nfiles: %s' % sorted(new)
            return 'ok', '', ''
        if r.status != 0:
            return 'bad', 'a valid combination of options is rejected', show
        if d['unknown'] and 'nknown command-line option' not in r.text:
            return 'bad', 'an unknown option is not reported', show
        if not d['unknown'] and 'command-line option' in r.text:
            return 'bad', 'a known option is reported as unknown', show
        want = {d['outfile']}
        if d['pdb']:
            want.add(os.path.splitext(d['outfile'])[0] + '.pdb')
        if new != want:
            return 'bad', 'other files than the documented ones are written', show + '\nexpected %s\ngot %s' % (sorted(want), sorted(new))
        with open(os.path.join(cwd, d['outfile']), 'rb') as f:
            data = f.read()
        a = data.find(b'@@F;')
        b = data.find(b'@@E', a)
        if a < 0 or b < 0:
            return 'bad', 'the output does not contain the data of the program', show
        got = data[a + 4:b].decode('utf-8', 'replace')
        exp = ''
        for f in d['facts']:
            if isinstance(f, tuple):
                f = '%s=%s' % (f[0], self.expand(f[1], d['defs'], {f[0]}))
            exp += f + ';'
        if got != exp:
            return 'bad', 'a macro or include directory of the command line does not have its value', show + '\nexpected %s\ngot      %s' % (exp, got)
        pe = pe_facts(data)
        if (d['target'] == 'obj') != (pe is None):
            return 'bad', 'the output is not of the kind that was asked for', show
        if pe is None:
            if data[:2] != b'\x64\x86':
                return 'bad', 'the output is not an object file', show
            return 'ok', '', ''
        w = dict(dll=d['target'] == 'dll', stripped=not d['dyn'], entry=bool(d['entry']), base=d['base'], subsystem=d['sub'], dynamic=d['dyn'])
        if d['base'] is None:
            w['base'] = pe['base']
        if pe != w:
            return 'bad', 'a field of the image does not have the value asked for', show + '\nexpected %s\ngot      %s' % (w, pe)
        if d['lib'] and b'harness.dll' not in data:
            return 'bad', 'the function of a library is not imported', show
        if d['target'] == 'exe' and not d['lib'] and d['entry'] in EXIT and d['dyn']:
            x = self.px.exe_run(os.path.join(cwd, d['outfile']), 'p.exe a b')
            if x.status != EXIT[d['entry']]:
                return 'bad', 'the program does not start at its entry function', show + '\nstatus of the program %s instead of %d' % (x.status, EXIT[d['entry']])
        return 'ok', '', ''

    def expand(self, v, defs, hidden):
        """the text S(v) gives"""
        out, last = '', 0
        v = re.sub(r'/\*.*?\*/', ' ', v)

        def sub(m):
            w = m.group(0)
            if w[0] in '"\'' or w not in defs or w in hidden:
                return w
            return self.expand_raw(defs[w], defs, hidden | {w})
        t = re.sub(r'"[^"]*"|\'[^\']*\'|\w+', sub, v)
        return re.sub(r'\s+', ' ', t).strip()

    expand_raw = expand


def quote(ch, t):
    if t and not any(c in ' \t"' for c in t):
        return t if ch.chance(3, 4) or t.endswith('\\') else '"%s"' % t
    r, b = '', 0
    for c in t:
        if c == '\\':
            b += 1
        elif c == '"':
            r += '\\' * (2 * b + 1) + '"'
            b = 0
            continue
        else:
            r += '\\' * b
            b = 0
            r += c
            continue
    r += '\\' * (2 * b)
    return '"%s"' % r
