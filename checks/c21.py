from vlib.core import *
from vlib.diff import *
from vlib.gen_intrin import IntrinWorker, THREADS
import shutil
import tempfile

# ++ and -- of _Atomic objects: each thread adds 1 this many times
INCREMENT = '''static _Atomic u32 x; static volatile u32 go;
static u32 work(void *p){ go++; while (go < 2) ; for (int i = 0; i < 400000; i++) x++; return 0; }
__declspec(dllexport) void t0(void){ void *h[4]; for (int i = 0; i < 4; i++) h[i] = CreateThread(0, 0, work, 0, 0, 0); for (int i = 0; i < 4; i++) WaitForSingleObject(h[i], -1); h_log(x); }
'''

RULE = ('A case is a program that applies 1-7 of the 466 intrinsics and the atomic operations to edge and random operands (literals, locals, volatiles, globals, elements, members, pointers, calls, nested intrinsics), or updates shared objects from 2-4 threads; '
        'the results and the memory they touch are compared with clang\'s implementation of the vector intrinsics and a model of the others. Every case applies one; distinct by text.')


def main():
    s = Session('C21', rule=RULE, assumptions=['the vector intrinsics of clang 18 compute what is documented', 'a lost update shows in thousands of increments'])
    run_diff(s, IntrinWorker, 1200 if TIER == 'quick' else 4000, 16)
    text = PRELUDE + THREADS + INCREMENT
    d = tempfile.mkdtemp(prefix='c21-')
    px = Pex(build_hlc(), d)
    try:
        got = None
        for _ in range(3):
            px.write('a.c', text)
            r = px.hlc_dll(['a.c'], 'a.dll')
            logs, err, rr = px.tests('a.dll') if not r.status else (None, r.text, None)
            got = logs[0].vals if logs else err
            if got != [1600000]:
                break
    finally:
        px.close()
        shutil.rmtree(d)
    s.count(INCREMENT)
    if got != [1600000]:
        s.fail(Failure('increments of an _Atomic object by ++ are lost', {'increment.c': text}, '4 threads that each increment 400000 times leave %s' % got, 'atomic-increment'))
    return s.finish()
