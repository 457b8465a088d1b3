from vlib.core import *
from vlib.diff import *
from vlib.gen_pe import PeWorker

RULE = ('A case is a program of data objects (initialised, zero, constant, aligned, larger than a page, thread-local), functions, tables and packed structures of pointers with offsets to data, functions, string literals and imports, exports and imports from two DLLs by name and ordinal, '
        'compiled to a DLL with random image options. The image has to pass a strict reader; its exports and imports are those of the program; loaded at its own base and at three others every value read by the test functions (directly and through the export table) is the one the generator knows; '
        'and the image compiled for another base has to equal the first one relocated. Non-trivial: at least 3 declarations and 3 values; distinct by text.')


def main():
    s = Session('C14', rule=RULE, assumptions=['imported data is not covered: hlc documents it as unsupported'])
    run_diff(s, PeWorker, 500 if TIER == 'quick' else 12000, 24)
    return s.finish()
