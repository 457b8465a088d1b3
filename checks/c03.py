from vlib.core import *
from vlib.diff import *
from vlib.gen_stmt import StmtWorker

RULE = ('A case is 1-3 functions of nested statements (loops, switches, gotos, returns, shadowed and static locals) called several times with a trace of '
        'every point passed and every controlling expression evaluated; it is non-trivial with more than 12 statements of at least three kinds. Oracle: the trace of clang\'s code.')


def main():
    s = Session('C03', rule=RULE, assumptions=['clang 18 at -O1 translates control flow correctly'])
    run_diff(s, StmtWorker, 700 if TIER == 'quick' else 12000, 30)
    return s.finish()
