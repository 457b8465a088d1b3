from vlib.core import *
from vlib.diff import *
from vlib.gen_int import IntWorker

RULE = ('A case is one function over 1-5 integer variables placed as locals, globals, members, array elements or pointees, run on 4-12 input '
        'vectors of boundary-heavy values; it is non-trivial when it has more than 8 sub-expressions; distinct by text. Oracle: clang for the same ABI.')


def main():
    s = Session('C01', rule=RULE, assumptions=['clang 18 at -O1 -fwrapv translates the generated integer expressions correctly'])
    run_diff(s, IntWorker, 700 if TIER == 'quick' else 12000, 40)
    return s.finish()
