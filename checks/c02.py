from vlib.core import *
from vlib.diff import *
from vlib.gen_float import FloatWorker

RULE = ('A case is one function over 1-5 float, double and integer variables in various places, run on 4-8 input vectors including infinities, NaNs, signed zeros, '
        'denormals and rounding boundaries; non-trivial with more than 8 sub-expressions; distinct by text. Oracle: clang for the same ABI, NaNs compared as NaN.')


def main():
    s = Session('C02', rule=RULE, assumptions=['clang 18 at -O1 -ffp-contract=off evaluates float and double expressions as SSE instructions do'])
    run_diff(s, FloatWorker, 900 if TIER == 'quick' else 8000, 40)
    return s.finish()
