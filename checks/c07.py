from vlib.core import *
from vlib.diff import *
from vlib.gen_agg import AggWorker

RULE = ('A case is a history of 2-7 generated operations (assignments of structs and unions as a whole through every kind of lvalue and by calls, selections, compound literals; reads, writes, compound assignments and increments of members and bit-fields) '
        'over objects of generated types that lie between guard bytes; after every operation all bytes that changed are logged and compared with clang -O0; non-trivial with at least two operations; distinct by text.')


def main():
    s = Session('C07', rule=RULE, assumptions=['objects are filled with pseudo-random bytes first; shifts are within range; enums and _Bool hold valid values'])
    run_diff(s, AggWorker, 1400 if TIER == 'quick' else 12000, 20)
    return s.finish()
