import shutil
import tempfile
from vlib.core import *
from vlib.diff import *
from vlib.gen_seh import SehWorker

RULE = ('A case is a program of 1-4 functions (frames of 0 to 600000 bytes, alloca, structures by value, variable arguments, recursion) with nested __try/__except in every kind of statement, RaiseException, access violations, divisions by zero, breakpoints, '
        'filters that resume, continue the search or handle (constants, globals, functions, _exception_code(), _exception_info(), conditional and logical operators), run on an implementation of the Windows dispatcher over .pdata/.xdata; '
        'the history of values has to be that of a model of two-phase handling, and in a third of the runs the virtual unwinder is applied at every instruction. A case is non-trivial if an exception is raised or instructions are stepped; distinct by text.')

# constructs of structured exception handling that the compiler does not implement: (key, what, source, extra arguments, expected log)
H = '''typedef unsigned long long u64; __declspec(dllimport) void h_log(u64); __declspec(dllimport) void RaiseException(unsigned, unsigned, unsigned, u64 *);
'''
PROBES = [
    ('finally', 'a function with __try/__finally crashes the compiler', H + '''__declspec(dllexport) void t0(void) { __try { __try { h_log(1); *(int *)8 = 1; } __finally { h_log(2); } } __except (1) { h_log(3); } }
''', [1, 2, 3]),
    ('leave', '__leave is not implemented', H + '''__declspec(dllexport) void t0(void) { __try { h_log(1); if (1) __leave; h_log(2); } __except (1) { h_log(3); } h_log(4); }
''', [1, 4]),
    ('filter-local', 'an exception filter that uses a local variable or parameter of its function crashes the compiler or reads something else', H + '''int g(int x) { int l = x + 5; __try { *(int *)8 = 1; } __except (l == 7 && x == 2) { return 1; } return 2; }
__declspec(dllexport) void t0(void) { h_log((u64)g(2)); }
''', [1]),
]


def main():
    s = Session('C17', rule=RULE, assumptions=['the dispatcher of harness/seh.h behaves as RtlDispatchException, __C_specific_handler and RtlUnwindEx do for version 1 unwind information', 'exceptions raised inside filters are left out'])
    run_diff(s, SehWorker, 700 if TIER == 'quick' else 30000, 16)
    d = tempfile.mkdtemp(prefix='c17-')
    px = Pex(build_hlc(), d)
    try:
        for key, what, text, want in PROBES:
            px.write('a.c', text)
            r = px.hlc_dll(['a.c'], 'a.dll')
            got = r.text[-300:]
            if r.status == 0 and not r.abnormal:
                logs, err, rr = px.tests('a.dll', ['max=100', 'seh'])
                got = [int(v) for v in logs[0].vals] if logs else str(err)
            s.count(text)
            if got != want:
                s.fail(Failure(what, {'a.c': text}, 'expected the log %s, got %s' % (want, got), key))
        text = H + '__declspec(dllexport) void t0(void) { __try { h_log(1); RaiseException(1, 0, 0, 0); } __except (_exception_code() == 1) { h_log(2); } h_log(3); }\n'
        px.write('a.c', text)
        r = px.hlc(['/obj', '/no_debug', '/quiet', 'a.c', '/out:a.obj'])
        got = r.text[-300:]
        if r.status == 0 and not r.abnormal:
            rc, got = px.lld_dll(['a.obj'], 'a.dll')
            if not rc:
                logs, err, rr = px.tests('a.dll', ['max=100', 'seh'])
                got = [int(v) for v in logs[0].vals] if logs else str(err)
        s.count(text)
        if got != [1, 2, 3]:
            s.fail(Failure('__try in an object file does not work', {'a.c': text}, 'expected the log [1, 2, 3], got %s' % (got,), 'seh-obj'))
    finally:
        px.close()
        shutil.rmtree(d)
    return s.finish()
