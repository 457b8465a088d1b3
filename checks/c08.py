from vlib.core import *
from vlib.diff import *
from vlib.gen_abi import AbiWorker

RULE = ('A case is a set of 1-6 generated functions with random parameter and result types (integers, floats, structs and unions by value, variadic), each assigned to a file compiled by hlc /obj or a file compiled by clang, calling one another in both directions, directly and through pointers; '
        'the clang side destroys all volatile registers and the shadow space and leaves garbage above small values. Logs are compared with both files compiled by clang; the harness checks stack alignment, unwinding and preserved registers. Non-trivial with a function that has parameters; distinct by text.')


def main():
    s = Session('C08', rule=RULE, assumptions=['clang -target x86_64-pc-windows-msvc follows the calling convention'])
    run_diff(s, AbiWorker, 300 if TIER == 'quick' else 4000, 25)
    return s.finish()
