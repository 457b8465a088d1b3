from vlib.core import *
from vlib.diff import *
from vlib.gen_obj import ObjWorker

RULE = ('A case is a program of data objects (initialised, zero, common, aligned, selectany, thread-local), functions, pointer tables with offsets to data, functions, string literals and imports, exports, imported functions and data, split into 1-4 files with extern declarations; '
        'each file is compiled to an object by hlc or (a third of them in mixed programs) by clang, the objects of hlc pass a strict COFF reader, and lld links them in random order without a warning; the exports are those of the program, '
        'and loaded at three bases every value read by the test functions is the one the generator knows. The same files compiled by hlc straight to an image have to give the same values. Non-trivial: at least 3 declarations and 3 values; distinct by text.')


def main():
    s = Session('C15', rule=RULE, assumptions=['lld aligns a section to at most a page', 'static libraries of objects cannot be linked by hlc, which links import libraries only'])
    run_diff(s, ObjWorker, 300 if TIER == 'quick' else 8000, 16)
    return s.finish()
