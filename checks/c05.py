from vlib.core import *
from vlib.diff import *
from vlib.gen_layout import LayoutWorker

RULE = ('A case is 1-3 generated struct or union types with the program that reports their size, alignment, every member offset and size and the bits each bit-field occupies; '
        'non-trivial with at least three members; distinct by text. Oracle: clang for the Microsoft ABI.')


def main():
    s = Session('C05', rule=RULE, assumptions=['clang 18 implements the Microsoft x64 layout'])
    run_diff(s, LayoutWorker, 1500 if TIER == 'quick' else 12000, 30)
    return s.finish()
