from vlib.core import *
from vlib.diff import *
from vlib.gen_const import ConstWorker

RULE = ('A case holds 1-4 generated constant expressions (with the value a reference model gives them), each evaluated at run time over volatile operands and at compile time as static initialiser, '
        'array size, enumerator, case label, bit-field width, designator, _Static_assert, condition or #if; non-trivial with at least two operators; distinct by text. Oracles: the model, clang, and run-time against compile-time evaluation.')


def main():
    s = Session('C04', rule=RULE, assumptions=['expressions with undefined behaviour (signed overflow, out of range shifts and conversions) are not generated'])
    run_diff(s, ConstWorker, 2000 if TIER == 'quick' else 12000, 30)
    return s.finish()
