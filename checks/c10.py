from vlib.core import *
from vlib.diff import *
from vlib.gen_lit import LitWorker

RULE = ('A case is 2-10 generated integer, floating, character and string literals used in expressions, initialisers, case labels, enumerators and #if, with their values, sizes and signedness logged; '
        'floating literals are concentrated next to rounding boundaries. Non-trivial with at least three literals of two kinds; distinct by text. Oracle: clang for the same ABI.')


def main():
    s = Session('C10', rule=RULE, assumptions=['clang 18 gives literals the types and values of the standard; floating literals are correctly rounded by it'])
    run_diff(s, LitWorker, 900 if TIER == 'quick' else 12000, 40)
    return s.finish()
