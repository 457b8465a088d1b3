import shutil
import tempfile
from vlib.core import *
from vlib.diff import *
from vlib.gen_order import OrderWorker, late_array_size, LATE

RULE = ('A case is a program of 4-60 interdependent file-scope declarations (types, enumerators, objects, functions, assertions) compiled in 2-5 permutations, split over up to 5 files, with random /seed and /thread_count, '
        'or the same with one invalid declaration added; non-trivial with at least 6 declarations and three kinds of dependency; distinct by text and permutations. Oracle: the result of the program in its original order compiled by clang; '
        'every permutation of an invalid program has to be rejected.')


def main():
    s = Session('C11', rule=RULE, assumptions=['clang 18 compiles the original order as C prescribes'])
    run_diff(s, OrderWorker, 200 if TIER == 'quick' else 4000, 10)
    d = tempfile.mkdtemp(prefix='c11-')
    px = Pex(build_hlc(), d)
    try:
        what = late_array_size(px)
    finally:
        px.close()
        shutil.rmtree(d)
    s.count(LATE)
    if what:
        s.fail(Failure('the size of an array that is defined later is not used in &array + 1', {'late.c': LATE}, what, 'array-size-late'))
    return s.finish()
