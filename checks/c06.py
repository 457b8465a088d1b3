from vlib.core import *
from vlib.diff import *
from vlib.gen_init import InitWorker

RULE = ('A case declares 1-3 aggregates (global, static, automatic, compound literal) of generated types with generated initialisers and logs every sub-object; '
        'it is non-trivial when at least three sub-objects are initialised explicitly; distinct by text. Oracle: clang. For unions only the initialised member is looked at.')


def main():
    s = Session('C06', rule=RULE, assumptions=['clang 18 implements C11 initialisation'])
    run_diff(s, InitWorker, 900 if TIER == 'quick' else 12000, 30)
    return s.finish()
